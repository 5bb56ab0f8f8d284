"""Explores one contract and discharges its obligations (runs in its own process)."""
import time
import z3
from . import symctx, api
from .prover import Prover, model_value
from .values import SymNum, SStr
from .interp import PathAbort


def model_inputs(ob, m):
    vals = {}
    for name, v in ob.inputs:
        if isinstance(v, tuple) and v[0] == "choice":
            vals["#" + name] = v[1]
        elif m is None:
            continue
        elif isinstance(v, SymNum):
            x = model_value(m, v.t)
            if x is None:
                continue
            vals[name] = x if isinstance(x, int) else f"{x.numerator}/{x.denominator}"
        elif isinstance(v, SStr):
            x = model_value(m, v.parts[0].t)
            vals[name] = f"TK{int(x) if x is not None else 0}"
    return vals


def harness_cfg(h):
    sm = {}
    for q in h.summaries:
        sm[q] = symctx.make_summary(api.SUMMARIES[q])
    return dict(summaries=sm, unroll=h.unroll)


def run_harness(h, seconds, shard=0, nshards=1):
    """returns dict; with nshards > 1 only obligations i with i % nshards == shard are solved"""
    t0 = time.time()
    deadline = t0 + seconds
    out = dict(harness=h.name, obligations=[], unsupported=None, paths=0, executed=[], summaries=[], explore_s=0, covers=0)
    try:
        obls, st = symctx.explore(h.fn, harness_cfg(h), h.max_paths, deadline=t0 + seconds * 0.6,
                                    split=(h.split, shard, nshards) if h.split and nshards > 1 else None)
    except RecursionError:
        out["unsupported"] = "recursion"
        return out
    out["explore_s"] = round(time.time() - t0, 2)
    out["paths"] = st["paths"]
    out["split"] = st.get("split", False)
    out["aborted"] = st["aborted"]
    out["executed"] = sorted(st["executed"])
    out["summaries"] = sorted(st["summaries"])
    out["houdini"] = st.get("houdini_rounds", 1)
    if st["unsupported"]:
        out["unsupported"] = st["unsupported"]
    elif st["truncated"]:
        out["unsupported"] = "path budget exceeded"
    pr = Prover()
    split = st.get("split")
    if shard == 0 or split:
        n = 0
        for facts in st["covers"]:
            s = z3.Solver()
            s.set("timeout", 1500)
            for f in facts:
                s.add(f)
            if s.check() != z3.unsat:
                n += 1
            if n >= 3 and time.time() > deadline - seconds * .5:
                break
        out["covers"] = n
    fails = 0
    for i, ob in enumerate(obls):
        if not h.split and i % nshards != shard:
            continue
        rec = dict(name=ob.name, decs="".join(map(str, ob.decs)), note=ob.note[:300])
        if time.time() > deadline or fails >= 8:
            rec.update(status="unknown", backend="none", s=0, why="time" if fails < 8 else "stopped after 8 failures", values=model_inputs(ob, None))
            out["obligations"].append(rec)
            if ob.name.startswith("cand|"):
                continue
            continue
        t1 = time.time()
        try:
            status, backend, m = pr.prove(ob.facts, ob.goal, min(h.budget, max(3, deadline - t1)))
        except (z3.Z3Exception, RecursionError) as e:
            status, backend, m = "unknown", f"error {e}", None
        rec.update(status=status, backend=backend, s=round(time.time() - t1, 3))
        if status != "proved":
            fails += 1
            try:
                rec["values"] = model_inputs(ob, m)
            except Exception as e:      # noqa
                rec["values"] = model_inputs(ob, None)
            rec["goal"] = str(ob.goal)[:600]
        out["obligations"].append(rec)
    out["total_s"] = round(time.time() - t0, 2)
    return out
