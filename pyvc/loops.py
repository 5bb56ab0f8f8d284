"""Loops with an unknown number of iterations: cut by an inductive invariant.

At the loop head every variable the body assigns is replaced by an arbitrary
value satisfying the candidate invariants; the candidates must hold on entry and
be preserved by one arbitrary iteration (obligations).  Candidates come from
the contract (templates over the *types* of the variables, not their names) and
from defaults; the ones that are not inductive are dropped and the contract is
explored again (Houdini), so what remains is a proved invariant.
"""
import ast
import z3
from .values import *


class LoopState:
    """what a template sees: current and entry values of the loop-modified variables"""
    def __init__(self, nums, lists, nums0, lists0, index, length, frame):
        self.nums, self.lists, self.nums0, self.lists0 = nums, lists, nums0, lists0
        self.index, self.length = index, length
        self.frame = frame          # numeric variables in scope the loop does not modify


def assigned(body):
    out = set()
    appended = set()
    for st in body:
        for n in ast.walk(st):
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                out.add(n.id)
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("append",) \
                    and isinstance(n.func.value, ast.Name):
                appended.add(n.func.value.id)
    return out, appended


def run_invariant_loop(I, st, env, seq):
    from . import interp as IM
    mod, app = assigned(st.body)
    if isinstance(st, ast.For):
        for n in ast.walk(st.target):
            if isinstance(n, ast.Name):
                mod.add(n.id)
    else:
        for n in ast.walk(st.test):
            if isinstance(n, ast.NamedExpr):
                mod.add(n.target.id)
    key = f"{env.module.src.dotted}:{env.func.name if env.func else ''}:{_ordinal(st, env)}"
    dropped = I.houdini.setdefault(key, set())
    fields = set()
    for _, fl in I.loop_templates:
        fields |= set(fl)
    # abstract entry state
    nums0, lists0, poison = {}, {}, []
    target_names = set()
    if isinstance(st, ast.For):
        target_names = {n.id for n in ast.walk(st.target) if isinstance(n, ast.Name)}
    for v in sorted(mod):
        if v in target_names:
            continue
        if v not in env.vars:
            poison.append(v)
            continue
        x = env.vars[v]
        if is_num(x) and not isinstance(x, float):
            nums0[v] = x
        elif isinstance(x, (PList, GhostList)) and v in app:
            app.add(v)
        else:
            poison.append(v)
    for v in sorted(app):
        if v in env.vars and isinstance(env.vars[v], (PList, GhostList)):
            g = env.vars[v]
            if isinstance(g, PList):
                sums = {}
                for f in sorted(fields):
                    try:
                        sums[f] = 0
                        for x in g.items:
                            sums[f] = num_add(sums[f], x if f == "" else I.getattr(x, f))
                    except PyRaise:
                        del sums[f]
                g = GhostList(len(g.items), sums)
            lists0[v] = g
    frame = {k: v for k, v in env.vars.items() if is_num(v) and k not in mod and not isinstance(v, (bool, float))}
    idx0 = 0
    length = None
    lo = 0
    if seq is not None:
        if isinstance(seq, IM.SymRange):
            lo = seq.lo
            idx0 = seq.lo
            length = seq.hi
        else:
            length = seq.length
    c = I.ctx

    def cands(nums, lists, idx):
        stt = LoopState(nums, lists, nums0, lists0, idx, length, frame)
        out = []
        if seq is not None:
            out.append(("index>=start", num_cmp(">=", idx, lo)))
        for v in nums:
            a, b = nums[v], nums0[v]
            if isinstance(b, (bool, SymBool)):
                continue
            out += [(f"{v}<=entry", num_cmp("<=", a, b)), (f"{v}>=entry", num_cmp(">=", a, b)), (f"{v}>=0", num_cmp(">=", a, 0)),
                    (f"{v}>0", num_cmp(">", a, 0))]
        for fn, _ in I.loop_templates:
            out += list(fn(c, stt))
        return [(n, t) for n, t in out if n not in dropped]

    # entry
    for n, t in cands(nums0, lists0, idx0):
        c.ensure(f"cand|{key}|{n}|entry", t)
    # arbitrary state at the loop head
    nums, lists = {}, {}
    for v, x in nums0.items():
        if isinstance(x, (bool, SymBool)):
            nums[v] = SymBool(z3.Bool(I.path.fresh_name("lv_" + v)))
            continue
        isr = isinstance(x, Fraction) or (isinstance(x, SymNum) and not x.isint) or (key, v) in I.houdini.get("reals", ())
        nums[v] = SymNum((z3.Real if isr else z3.Int)(I.path.fresh_name("lv_" + v)))
    for v, g in lists0.items():
        L = SymNum(z3.Int(I.path.fresh_name("len_" + v)))
        I.path.add(L.t >= 0)
        sums = {}
        for f, x in g.sums.items():
            r = isinstance(x, Fraction) or (isinstance(x, SymNum) and not x.isint) or (key, v, f) in I.houdini.get("reals", ())
            sums[f] = SymNum((z3.Real if r else z3.Int)(I.path.fresh_name(f"sum_{v}_{f}")))
        lists[v] = GhostList(L, sums)
    idx = SymNum(z3.Int(I.path.fresh_name("idx"))) if seq is not None else None
    for n, t in cands(nums, lists, idx if idx is not None else 0):
        c.assume(t)
    env.vars.update(nums)
    env.vars.update(lists)
    for v in poison:
        env.vars[v] = Poison(v)
    if seq is None:
        cond = I.truth(I.eval(st.test, env))
    else:
        k = I.path.choose(2)
        cond = k == 1
        c.assume(num_cmp("<", idx, length) if cond else num_cmp("==", idx, I.ctx.If(num_cmp(">=", length, lo), length, lo)))
    if not cond:
        for v in target_names:
            env.vars[v] = Poison(v)
        I.exec_block(st.orelse, env)
        return
    if seq is not None:
        I.assign(st.target, idx if isinstance(seq, IM.SymRange) else seq.elem(idx), env)
    g0, ok0 = I.loop_guard, I.loop_ok
    ghost_ids = {id(g) for g in lists.values()}
    # the element handed to the body belongs to the iteration
    I.loop_guard = max([g0 or 0, _mark()]) if g0 is None else g0
    I.loop_ok = set(ok0) | ghost_ids | _reach(env.vars, target_names)
    brk = False
    try:
        try:
            I.exec_block(st.body, env)
        except IM._Continue:
            pass
        except IM._Break:
            brk = True
    finally:
        I.loop_guard, I.loop_ok = g0, ok0
    if brk:
        return
    nums2 = {}
    for v in nums:
        x = env.vars.get(v)
        if not is_num(x) or isinstance(x, float):
            raise Unsupported(f"loop variable {v} changes type")
        if isinstance(nums[v], SymNum) and nums[v].isint and (isinstance(x, Fraction) or (isinstance(x, SymNum) and not x.isint)):
            I.houdini.setdefault("reals", set()).add((key, v))
            I.houdini["_changed"] = True
        nums2[v] = x
    lists2 = {}
    for v in lists:
        if env.vars.get(v) is not lists[v]:
            raise Unsupported(f"loop list {v} is rebound")
        for f, x in lists[v].sums.items():
            if isinstance(x, Fraction) or (isinstance(x, SymNum) and not x.isint):
                if (key, v, f) not in I.houdini.setdefault("reals", set()):
                    I.houdini["reals"].add((key, v, f))
                    I.houdini["_changed"] = True
        lists2[v] = lists[v]
    for n, t in cands(nums2, lists2, num_add(idx, 1) if idx is not None else 0):
        c.ensure(f"cand|{key}|{n}|preserved", t)
    raise IM.PathAbort()


def _mark():
    from . import values
    return values._SERIAL[0]


def _reach(vars_, names):
    out = set()
    st = [vars_[n] for n in names if n in vars_]
    while st:
        x = st.pop()
        if id(x) in out:
            continue
        if isinstance(x, (Obj, PList, PDict, PSet)):
            out.add(id(x))
        if isinstance(x, Obj):
            st.extend(x.f.values())
        elif isinstance(x, (PList, PSet)):
            st.extend(x.items)
        elif isinstance(x, PDict):
            st.extend(x.vals)
        elif isinstance(x, tuple):
            st.extend(x)
    return out


def _ordinal(st, env):
    node = env.func.node if env.func else None
    if node is None:
        return 0
    k = 0
    for n in ast.walk(node):
        if isinstance(n, (ast.For, ast.While)):
            if n is st:
                return k
            k += 1
    return k
