#!/usr/bin/env python3-vt
"""Decides one property:  check.py PROPERTY [--tier quick|thorough]
   or re-runs a saved violation:  check.py --replay FILE"""
import argparse
import json
import multiprocessing as mp
import os
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
PYPY = "/opt/venv/bin/python"
REPO = os.environ.get("PYVC_REPO", "/repo")
TRUSTED = [
    "pyvc VC generator (symbolic interpreter of the Python AST) and its models of builtins, math, dataclasses, copy, functools.cmp_to_key",
    "z3 4.x (SMT + nlsat) and, where named, cvc5",
    "floats and Decimals are treated as mathematical reals, ints as unbounded integers (the latter is exact)",
    "sqrt/powers axiomatised (s>=0, s*s=x; a**e as positive monotone generators); exp/log uninterpreted",
    "symbolic token/pair names are non-empty strings different from every string literal in the code",
]


def pypy_job(mode, job, scratch, tag, timeout):
    jf, of = os.path.join(scratch, tag + ".job.json"), os.path.join(scratch, tag + ".out.json")
    with open(jf, "w") as fh:
        json.dump(job, fh)
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg", PYTHONHASHSEED="0", PYVC_REPO=REPO)
    env.pop("PYTHONPATH", None)
    p = subprocess.Popen([PYPY, os.path.join(HERE, "pyvc", "conrun.py"), mode, jf, of], cwd=scratch, env=env,
                         stdout=open(os.path.join(scratch, tag + ".log"), "w"), stderr=subprocess.STDOUT, start_new_session=True)
    return p, of, time.time() + timeout, tag


def finish(job, scratch):
    p, of, end, tag = job
    try:
        p.wait(max(0.1, end - time.time()))
    except subprocess.TimeoutExpired:
        p.kill()
        p.wait()
    res = []
    if os.path.exists(of):
        try:
            with open(of) as fh:
                res = json.load(fh)
        except ValueError:
            res = []
    log = open(os.path.join(scratch, tag + ".log")).read()[-2000:]
    return res, p.returncode, log


def _work(h, seconds, shard, nshards, q):
    from pyvc.worker import run_harness
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    sys.setrecursionlimit(8000)
    try:
        q.put((h.name, shard, run_harness(h, seconds, shard, nshards)))
    except MemoryError:
        q.put((h.name, shard, dict(harness=h.name, obligations=[], unsupported="memory", paths=0, executed=[], summaries=[])))
    except BaseException as e:     # noqa
        import traceback
        q.put((h.name, shard, dict(harness=h.name, obligations=[], unsupported=f"engine error {type(e).__name__}: {e}", paths=0,
                                   executed=[], summaries=[], tb=traceback.format_exc()[-1500:])))


def prove_all(harnesses, seconds, ncpu, per=60):
    """run every symbolic contract, each in its own process(es); per: seconds per unit of weight"""
    todo = []
    for h in sorted(harnesses, key=lambda h: -h.weight):
        n = max(1, min(8, h.weight))
        for s in range(n):
            todo.append((h, s, n))
    results, running = {}, []
    q = mp.get_context("fork").Queue()
    t_end = time.time() + seconds

    def drain(block):
        import queue
        try:
            name, shard, r = q.get(timeout=0.2 if block else 0.01)
        except queue.Empty:
            return
        merge(results, name, r)
    while todo or running:
        while todo and len(running) < ncpu:
            h, s, n = todo.pop(0)
            left = t_end - time.time()
            p = mp.get_context("fork").Process(target=_work, args=(h, max(10, min(left, per * (1 + h.weight))), s, n, q), daemon=True)
            p.start()
            running.append((p, h, s, time.time() + max(30, min(left, per * (1 + h.weight))) + 60))
        drain(True)
        for r in list(running):
            p, h, s, end = r
            if not p.is_alive():
                drain(False)
                p.join()
                running.remove(r)
            elif time.time() > end:
                p.kill()
                running.remove(r)
                merge(results, h.name, dict(harness=h.name, obligations=[], unsupported="time limit", paths=0, executed=[], summaries=[]))
    for _ in range(20):
        drain(False)
    for h in harnesses:
        if h.name not in results:
            results[h.name] = dict(harness=h.name, obligations=[], unsupported="no result", paths=0, executed=[], summaries=[])
    return results


def merge(results, name, r):
    if name not in results:
        results[name] = r
        return
    a = results[name]
    a["obligations"] += r["obligations"]
    a["unsupported"] = a["unsupported"] or r["unsupported"]
    a["paths"] = a["paths"] + r["paths"] if r.get("split") else max(a["paths"], r["paths"])
    a["covers"] = max(a.get("covers", 0), r.get("covers", 0))
    a["executed"] = sorted(set(a["executed"]) | set(r["executed"]))
    a["summaries"] = sorted(set(a["summaries"]) | set(r["summaries"]))


def inconclusive(r):
    """the verifier ran out of time (rather than refuting an obligation or meeting what it does not interpret)"""
    if r["unsupported"] in ("path budget exceeded", "time limit", "no result", "memory"):
        return True
    st = [o["status"] for o in r["obligations"]]
    return not r["unsupported"] and "unknown" in st and "failed" not in st


def weight_of(r):
    return (bool(r["unsupported"]), sum(o["status"] != "proved" for o in r["obligations"]))


def known(prop):
    f = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(f):
        return []
    with open(f) as fh:
        return [x for x in json.load(fh)["findings"] if x["property"] == prop and x["status"] == "known"]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=None)
    ap.add_argument("--replay")
    ap.add_argument("--only")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    if a.replay:
        return do_replay(a.replay)
    tier = a.tier or os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    from pyvc.specload import load
    hs = load(a.prop)
    if a.only:
        hs = [h for h in hs if a.only in h.name]
    if not hs:
        print("no contract for", a.prop)
        return 2
    scratch = tempfile.mkdtemp(prefix="pyvc_")
    try:
        return decide(a, hs, tier, seed, scratch, t0)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def decide(a, hs, tier, seed, scratch, t0):
    prop = a.prop
    quick = tier == "quick"
    sym = [h for h in hs if h.kind != "bounded" and h.kind != "finding"]
    findings = [h for h in hs if h.kind == "finding"]
    conc = [h for h in hs if h.kind != "finding"]
    scale = 1 if quick else 20
    cs = 25 if quick else 240
    nsh = 3
    jobs = []
    for i in range(nsh):
        part = [h.name for h in conc][i::nsh]
        if part:
            jobs.append(pypy_job("sample", dict(prop=prop, seed=seed, scale=scale, harness=part, seconds=cs), scratch, f"s{i}", 300 if quick else 3000))
    fj = None
    if findings:
        fj = pypy_job("replay", dict(prop=prop, items=[dict(harness=h.name, values={}) for h in findings], tries=1), scratch, "find", 120)
    proofs = prove_all(sym, 420 if quick else 3000, 6 if quick else 8) if sym else {}
    creport, clog = {}, []
    for j in jobs:
        res, rc, log = finish(j, scratch)
        for r in res:
            creport[r["harness"]] = r
        if rc:
            clog.append(log)
    violations, notes = [], []
    # concrete failures -----------------------------------------------------------
    for name, r in creport.items():
        seen = set()
        for f in r["failures"]:
            if f["obligation"] in seen:
                continue
            seen.add(f["obligation"])
            violations.append(dict(kind="concrete", **f))
    missing = [h.name for h in conc if h.name not in creport]
    if missing:
        # the real code could not even be loaded / run
        violations.append(dict(kind="no-run", harness=missing[0], obligation="contract executes against the real code",
                               note="\n".join(clog)[-1500:], inputs=None))
    # a machine under load can run the solver out of time: contracts without an answer get a second, longer turn of their own
    bad = {v["harness"] for v in violations}
    again = [h for h in sym if h.name not in bad and inconclusive(proofs[h.name])]
    if again and time.time() - t0 < (450 if quick else 3600):
        for h in again:
            h.budget *= 2
        for name, r in prove_all(again, 200 if quick else 1500, 8, per=150).items():
            if weight_of(r) < weight_of(proofs[name]):
                proofs[name] = r
        notes.append("second turn for: " + ", ".join(h.name for h in again))
    # proof failures ------------------------------------------------------------------
    failed, undecided = [], []
    for h in sym:
        r = proofs[h.name]
        if r["unsupported"]:
            undecided.append((h, r["unsupported"]))
        for o in r["obligations"]:
            if o["status"] != "proved":
                failed.append((h, o))
        if not r["unsupported"] and (not r["obligations"] or not r.get("covers")):
            notes.append(f"vacuous: {h.name}")
            failed.append((h, dict(name="vacuity guard: contract has a feasible path", status="failed", backend="", values={}, decs="", s=0)))
    todo = []
    donef = {(v["harness"]) for v in violations}
    for h, o in failed:
        if h.name in donef:
            continue
        todo.append((h, o))
    per = {}
    for h, o in todo:
        per.setdefault((h.name, o["name"]), []).append(o)
    items = []
    for (hn, on), os_ in per.items():
        os_ = sorted(os_, key=lambda o: (o["status"] != "failed",))
        for o in os_[:4]:
            items.append(dict(harness=hn, name=on, values=o.get("values") or {}, rec=o))
    confirmed = set()
    if items:
        parts = [items[i::6] for i in range(6)]
        rj = [pypy_job("replay", dict(prop=prop, items=p, tries=1500, per_item=25, seconds=120 if quick else 400), scratch, f"r{i}", 200 if quick else 600)
              for i, p in enumerate(parts) if p]
        for j in rj:
            res, rc, log = finish(j, scratch)
            for x in res:
                if x["found"]:
                    confirmed.add(x["item"]["harness"])
                    if not any(v["harness"] == x["found"]["harness"] and v["obligation"] == x["found"]["obligation"] for v in violations):
                        violations.append(dict(kind="counterexample", failed_obligation=x["item"]["name"], verifier=x["item"]["rec"], **x["found"]))
    soft = []
    for (hn, on), os_ in per.items():
        if hn in confirmed:
            continue
        if all(o["status"] == "unknown" and o.get("why") == "time" for o in os_):
            undecided.append((next(h for h in sym if h.name == hn), "time budget"))
            continue
        soft.append(dict(kind="unreplayed", harness=hn, obligation=on, note="verifier: " + os_[0]["status"], inputs=os_[0].get("values"), verifier=os_[0]))
    # functions out of the verifier's reach: bounded stand-in with a larger budget
    extra = [h.name for h, _ in undecided]
    if extra:
        ej = [pypy_job("sample", dict(prop=prop, seed=seed + 7919, scale=scale * 6, harness=extra[i::6], seconds=40), scratch, f"x{i}", 300)
              for i in range(6) if extra[i::6]]
        for j in ej:
            res, rc, log = finish(j, scratch)
            for r in res:
                for f in r["failures"][:1]:
                    if not any(v["harness"] == f["harness"] for v in violations):
                        violations.append(dict(kind="concrete", **f))
                c = creport.get(r["harness"])
                if c:
                    c["evaluations"] += r["evaluations"]
                    c["distinct"] += r["distinct"]
    # known findings --------------------------------------------------------------------
    if fj:
        res, rc, log = finish(fj, scratch)
        kf = {x["harness"]: x for x in known(prop)}
        for x in res:
            hn = x["item"]["harness"]
            if x["found"]:
                if hn in kf:
                    print(f"KNOWN-FINDING: property={prop} {kf[hn]['what']}")
                else:
                    violations.append(dict(kind="concrete", **x["found"]))
    report(a, hs, sym, tier, seed, t0, proofs, creport, violations, soft, undecided, notes)
    out = os.path.join(HERE, "evidence", "replay")
    rc = 0
    n = 0
    for v in violations + soft:
        os.makedirs(out, exist_ok=True)
        fn = os.path.join(out, f"{prop}_{n}.json")
        n += 1
        with open(fn, "w") as fh:
            json.dump(dict(property=prop, rerun=f"{HERE}/check.py --replay {fn}", **v), fh, indent=1, default=str)
        tail = " no-failing-input-found" if v in soft or v.get("inputs") is None else ""
        print(f"# {v['harness']}: obligation '{v.get('failed_obligation', v['obligation'])}' {v.get('note', '')[:200]!r} inputs={str(v.get('inputs'))[:300]}")
        print(f"VIOLATION property={prop} replay={fn}{tail}")
        rc = 1
        if n >= 8:
            break
    for h, why in undecided:
        print(f"# UNDECIDED {h.name}: {why} (bounded stand-in ran)")
    print(f"# {prop} {tier}: {'violated' if rc else 'held'} in {time.time()-t0:.1f} s")
    return rc


def report(a, hs, sym, tier, seed, t0, proofs, creport, violations, soft, undecided, notes):
    prop = a.prop
    obl = [o for h in sym for o in proofs[h.name]["obligations"]]
    und = {h.name for h, _ in undecided}
    full = [h for h in sym if h.kind == "proved" and h.name not in und]
    bnd = [h for h in sym if h.kind == "proved-bounded" and h.name not in und]
    disch = [o for o in obl if o["status"] == "proved"]
    backends = {}
    for o in disch:
        backends[o["backend"]] = backends.get(o["backend"], 0) + 1
    ex = sorted({q for h in sym for q in proofs[h.name]["executed"]})
    summ = sorted({q for h in sym for q in proofs[h.name]["summaries"]})
    ev = sum(r["evaluations"] for r in creport.values())
    dn = sum(r["distinct"] for r in creport.values())
    samples = []
    for r in creport.values():
        for s in r["samples"][:1]:
            samples.append(dict(contract=r["harness"], inputs=s))
    pv = sorted({f for h in full for f in h.functions})
    bounded_only = sorted({f for h in hs if h.kind == "bounded" or h.name in und for f in h.functions})
    proof = dict(obligations=len(obl), discharged=len(disch), checker_cmd=f"{HERE}/check.py {prop} --tier {tier}",
                 trusted_base=TRUSTED, functions_under_contract=pv, functions_interpreted=ex, summaries_used=summ, back_ends=backends,
                 solver_s=round(sum(o["s"] for o in obl), 2), paths=sum(proofs[h.name]["paths"] for h in sym),
                 contracts=[dict(name=h.name, kind=h.kind if h.name not in und else "bounded (out of the verifier's reach: %s)" % dict((x.name, y) for x, y in undecided)[h.name],
                                 obligations=len(proofs[h.name]["obligations"]) if h.name in proofs else 0,
                                 paths=proofs[h.name]["paths"] if h.name in proofs else 0,
                                 states=h.doc) for h in hs])
    cov = dict(dict(evaluations=ev, distinct_nontrivial=dn,
                                rule="a run of a contract on the real code whose precondition held and that reached at least one postcondition, with a distinct input vector",
                                samples=samples[:12], bounded_functions=bounded_only))
    if sym:
        cov.update(proof)
    doc = dict(property=prop, tier=tier, seed=seed, level=LEVEL(hs), coverage=cov,
               assumptions=TRUSTED + ["the concrete runs and replays compare floats with relative tolerance 1e-6"] + notes,
               wall_s=round(time.time() - t0, 2),
               violations=len(violations + soft),
               violated=[{k: v[k] for k in ("harness", "obligation", "note", "inputs") if k in v} for v in violations + soft],
               undecided=[dict(contract=h.name, why=w) for h, w in undecided])
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as fh:
        json.dump(doc, fh, indent=1, default=str)
    if a.v:
        for h in sym:
            r = proofs[h.name]
            print(f"  {h.name}: {len(r['obligations'])} obl, {sum(o['status']=='proved' for o in r['obligations'])} proved, "
                  f"{r['paths']} paths, explore {r.get('explore_s')}s total {r.get('total_s')}s unsupported={r['unsupported']}")
            if r.get("tb"):
                print(r["tb"])
            for o in r["obligations"]:
                if o["status"] != "proved":
                    print("     ", o["name"], o["status"], o["backend"], o.get("note"), str(o.get("values"))[:300], o.get("goal", "")[:200])
        for r in creport.values():
            print(f"  [conc] {r['harness']}: {r['evaluations']} eval {r['distinct']} distinct {r['skipped']} skipped {len(r['failures'])} fail")


def LEVEL(hs):
    f = os.path.join(HERE, "MANIFEST.json")
    try:
        for c in json.load(open(f))["checks"]:
            if c["property"] == hs[0].prop:
                return c["level"]
    except Exception:
        pass
    return "proof"


def do_replay(fn):
    with open(fn) as fh:
        v = json.load(fh)
    scratch = tempfile.mkdtemp(prefix="pyvc_")
    try:
        j = pypy_job("replay", dict(prop=v["property"], items=[dict(harness=v["harness"], values=v.get("inputs") or {})], tries=1), scratch, "r", 120)
        res, rc, log = finish(j, scratch)
        print(json.dumps(res, indent=1) if res else log)
        return 1 if res and res[0]["found"] else 0
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
