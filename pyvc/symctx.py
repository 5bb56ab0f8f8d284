"""Symbolic side of the contract language: runs a contract over all paths of the real code."""
import time
from fractions import Fraction
import z3
from .values import *
from . import interp as IM
from .api import Out, SUMMARIES, Skip


class Obligation:
    __slots__ = ("name", "facts", "goal", "inputs", "decs", "kind", "note")

    def __init__(self, name, facts, goal, inputs, decs, note=""):
        self.name, self.facts, self.goal, self.inputs, self.decs, self.note = name, facts, goal, inputs, decs, note


class SymCtx:
    symbolic = True

    def __init__(self, interp, path, obls):
        self.I = interp
        self.path = path
        self.obls = obls
        self.reached = set()
        self.notes = []

    # inputs --------------------------------------------------------------
    def _decl(self, name, v):
        self.path.inputs.append((name, v))
        return v

    def int(self, name, lo=None, hi=None, rng=None):
        t = z3.Int(self.path.fresh_name("in_" + name))
        if lo is not None:
            self.path.add(t >= lo)
        if hi is not None:
            self.path.add(t <= hi)
        return self._decl(name, SymNum(t))

    def real(self, name, lo=None, hi=None, gt=None, lt=None, rng=None, log=True):
        t = z3.Real(self.path.fresh_name("in_" + name))
        for b, f in ((lo, lambda x: t >= x), (hi, lambda x: t <= x), (gt, lambda x: t > x), (lt, lambda x: t < x)):
            if b is not None:
                self.path.add(f(z3.RealVal(Fraction(repr(b)) if isinstance(b, float) else b)))
        return self._decl(name, SymNum(t))

    def choice(self, name, options):
        options = list(options)
        k = self.path.choose(len(options))
        self.path.inputs.append((name, ("choice", k)))
        return self.lift(options[k])

    def bool(self, name):
        return self.choice(name, [True, False])

    def string(self, name):
        n = self.path.fresh_name("in_" + name)
        t = z3.Int(n)
        self.path.add(t >= 0)
        return self._decl(name, SStr([StrAtom(n, t)]))

    def record(self, **kw):
        from .builtins_model import FakeCls
        return Obj(FakeCls("record"), {k: self.lift(v) for k, v in kw.items()})

    def lift(self, v):
        if isinstance(v, float) and v == v and v not in (float("inf"), float("-inf")):
            return Fraction(repr(v))
        if isinstance(v, list):
            return PList([self.lift(x) for x in v])
        if isinstance(v, dict):
            return PDict([(k, self.lift(x)) for k, x in v.items()])
        if isinstance(v, tuple):
            return tuple(self.lift(x) for x in v)
        return v

    # assumptions and goals --------------------------------------------------
    def assume(self, cond):
        t = tobool(cond)
        t = z3.simplify(t)
        if z3.is_true(t):
            return
        if z3.is_false(t):
            raise IM.PathAbort()
        self.path.note_numerals(t)
        self.path.add(t)

    def prune(self):
        """drop the path if the assumptions are contradictory"""
        if self.path.solver.check() == z3.unsat:
            raise IM.PathAbort()

    def split(self, cond):
        """case split in the contract itself"""
        return self.I.branch(cond) if isinstance(cond, SymBool) else bool(cond)

    def ensure(self, name, cond, note=""):
        self.reached.add(name)
        g = tobool(cond) if not isinstance(cond, SymBool) else cond.t
        self.path.note_numerals(g)
        self.obls.append(Obligation(name, list(self.path.facts), g, list(self.path.inputs), list(self.path.dec), note))

    # calls --------------------------------------------------------------------
    def _f(self, ref):
        if isinstance(ref, str):
            return self.I.resolve(ref)
        return ref

    def call(self, ref, *args, **kw):
        out = self.try_(ref, *args, **kw)
        if not out.ok:
            self.ensure(f"no exception from {ref if isinstance(ref, str) else 'call'}", False, note=repr(out.exc))
            raise IM.PathAbort()
        return out.value

    def try_(self, ref, *args, **kw):
        try:
            v = self.I.call(self._f(ref), [self.lift(a) for a in args], {k: self.lift(v) for k, v in kw.items()})
            return Out(v)
        except PyRaise as e:
            return self._exc(e)

    def _exc(self, e):
        cls = e.exc.cls
        names = [c.name for c in cls.mro] if isinstance(cls, IM.ClassInfo) else []
        pb = cls.pybase() if isinstance(cls, IM.ClassInfo) else cls
        names += [c.__name__ for c in pb.__mro__] if pb else []
        return Out(None, e.exc, names)

    def meth(self, o, name, *args, **kw):
        out = self.try_meth(o, name, *args, **kw)
        if not out.ok:
            self.ensure(f"no exception from .{name}", False, note=repr(out.exc))
            raise IM.PathAbort()
        return out.value

    def try_meth(self, o, name, *args, **kw):
        try:
            f = self.I.getattr(o, name)
            return Out(self.I.call(f, [self.lift(a) for a in args], {k: self.lift(v) for k, v in kw.items()}))
        except PyRaise as e:
            return self._exc(e)

    def attr(self, o, name):
        out = self.try_attr(o, name)
        if not out.ok:
            self.ensure(f"no exception from attribute {name}", False, note=repr(out.exc))
            raise IM.PathAbort()
        return out.value

    def try_attr(self, o, name):
        try:
            return Out(self.I.getattr(o, name))
        except PyRaise as e:
            return self._exc(e)

    def setattr(self, o, name, v):
        self.I.setattr(o, name, self.lift(v))

    def const(self, ref):
        return self._f(ref)

    def op(self, sym, a, b):
        """python operator applied through the object's own dunder methods"""
        import ast
        m = {"+": ast.Add, "-": ast.Sub, "*": ast.Mult, "/": ast.Div, "//": ast.FloorDiv, "%": ast.Mod, "**": ast.Pow,
             "<<": ast.LShift, ">>": ast.RShift}
        try:
            if sym in m:
                return Out(self.I.binop(m[sym], a, b))
            if sym.endswith("=") and sym[:-1] in m:
                return Out(self.I.binop(m[sym[:-1]], a, b, inplace=True))
            c = {"<": ast.Lt, "<=": ast.LtE, ">": ast.Gt, ">=": ast.GtE, "==": ast.Eq, "!=": ast.NotEq}[sym]
            return Out(self.I.compare(c(), a, b))
        except PyRaise as e:
            return self._exc(e)

    def unop(self, name, *a):
        try:
            return Out(self.I.call(self.I.builtins[name] if name in self.I.builtins else self.I.extmods["math"][name], list(a)))
        except PyRaise as e:
            return self._exc(e)

    # structure -------------------------------------------------------------------
    def items(self, v):
        return self.I.iterate(v)

    def item(self, o, k):
        return self.I.getitem(o, self.lift(k))

    def dict_items(self, d):
        return list(zip(d.keys, d.vals))

    def is_none(self, v):
        return v is None

    def same(self, a, b):
        """identity"""
        return a is b

    def is_str_eq(self, a, b):
        return self.I.eq(a, b)

    def pyeq(self, a, b):
        return self.I.eq(a, b)

    def snapshot(self, *objs):
        """every leaf reachable from objs, keyed by access path"""
        out = {}
        seen = {}

        def go(v, p):
            if isinstance(v, (Obj, PList, PDict, PSet)):
                if id(v) in seen:
                    out[p + "@"] = ("ref", seen[id(v)])
                    return
                seen[id(v)] = p
                self._keep = getattr(self, "_keep", []) + [v]
                if isinstance(v, Obj):
                    for k in sorted(v.f):
                        go(v.f[k], f"{p}.{k}")
                elif isinstance(v, PDict):
                    out[p + "#keys"] = repr(v.keys)
                    for k, x in zip(v.keys, v.vals):
                        go(x, f"{p}[{k}]")
                else:
                    out[p + "#len"] = len(v.items)
                    for i, x in enumerate(v.items):
                        go(x, f"{p}[{i}]")
            elif isinstance(v, tuple):
                for i, x in enumerate(v):
                    go(x, f"{p}({i})")
            else:
                out[p] = v
        for i, o in enumerate(objs):
            go(o, f"${i}")
        return out

    def unchanged(self, s1, s2, ignore=()):
        k1 = {k for k in s1 if not any(k.endswith(x) or x in k for x in ignore)}
        k2 = {k for k in s2 if not any(k.endswith(x) or x in k for x in ignore)}
        if k1 != k2:
            return False
        r = True
        for k in k1:
            a, b = s1[k], s2[k]
            if a is b:
                continue
            if isinstance(a, Opaque) and isinstance(b, Opaque):
                continue
            if is_num(a) and is_num(b):
                r = self.I.and_(r, num_cmp("==", a, b))
            elif isinstance(a, (str, SStr)) and isinstance(b, (str, SStr)):
                r = self.I.and_(r, self.I.str_eq(a, b))
            elif isinstance(a, tuple) and isinstance(b, tuple):
                if a != b:
                    return False
            elif type(a) is type(b) and not is_num(a) and not isinstance(a, (str, SStr)) and a is not None:
                continue
            else:
                return False
            if r is False:
                return False
        return r

    # logic / arithmetic ---------------------------------------------------------------
    def And(self, *a):
        r = True
        for x in a:
            r = self.I.and_(r, x)
            if r is False:
                return False
        return r

    def Or(self, *a):
        return mkbool(z3.simplify(z3.Or([tobool(x) for x in a])))

    def Not(self, a):
        return mkbool(z3.simplify(z3.Not(tobool(a))))

    def Implies(self, a, b):
        return mkbool(z3.simplify(z3.Implies(tobool(a), tobool(b))))

    def If(self, c, a, b):
        if isinstance(c, bool):
            return a if c else b
        ta, tb = coerce(a, b)
        return SymNum(z3.If(tobool(c), ta, tb))

    def eq(self, a, b, scale=None, tol=None):
        if a is None or b is None:
            return a is b
        return num_cmp("==", a, b)

    def le(self, a, b, scale=None, tol=None): return num_cmp("<=", a, b)
    def ge(self, a, b, scale=None, tol=None): return num_cmp(">=", a, b)
    def lt(self, a, b, scale=None, tol=None): return num_cmp("<", a, b)
    def gt(self, a, b, scale=None, tol=None): return num_cmp(">", a, b)

    def div(self, a, b):
        """exact quotient (b known non-zero in the contract)"""
        return num_div(a, b)

    def sqrt(self, a):
        if is_conc_num(a):
            return self.I.sqrt(a)
        return self.I._sqrt_term(z3.simplify(toreal(a.t)))

    def pow2(self, n):
        return self.I.pow2(n)

    def pow10(self, n):
        return self.I.power(10, n)

    def dec(self, a):
        """as Decimal"""
        return as_real(a)

    def flt(self, a):
        return as_real(a)

    def floor(self, a):
        return self.I.floor_(a)

    def ceil(self, a):
        return self.I.ceil_(a)

    def exact(self, a, b):
        return self.eq(a, b)

    def rational(self, p, q=1):
        return Fraction(p, q)

    def isint(self, v):
        return isinstance(v, int) or (isinstance(v, SymNum) and v.isint)

    def closed_list(self, v):
        return isinstance(v, (PList, tuple))

    def total(self, lst, field):
        if isinstance(lst, GhostList):
            return lst.sums[field]
        r = 0
        for x in self.I.iterate(lst):
            r = num_add(r, self.I.getattr(x, field) if field else x)
        return r

    def length(self, v):
        return v.length if isinstance(v, (GhostList, SymList)) else len(v.items if isinstance(v, PList) else v)

    # symbolic-length inputs
    def symlist(self, name, make, maxlen=4):
        n = self.int(name + "_len", lo=0)
        cnt = [0]

        def mk(i):
            cnt[0] += 1
            return make(f"{name}{cnt[0]}_")
        return SymList(n, mk, name)

    def loop_invariant(self, fn, fields=()):
        """register an invariant template (see loops.py)"""
        self.I.loop_templates.append((fn, fields))

    def on_append(self, fn):
        def hook(lst, x):
            fn(lst, x)
        self.I.append_hook = hook

    def builtin(self, name, *args):
        """a python builtin applied to values of the program"""
        f = self.I.builtins[name] if "." not in name else self.I.extmods[name.split(".")[0]][name.split(".")[1]]
        return self.I.call(f, list(args))

    def func(self, pyfn, name):
        """an arbitrary (uninterpreted) real function usable as an argument"""
        return IM.Builtin(name, pyfn)

    def uf(self, name, *args):
        return self.I.uf(name, *args)


def make_summary(fc):
    """callee contract -> what a caller sees"""
    def s(I, f, args, kwargs):
        b = I.bind_args(f, args, kwargs)
        c = I.ctx
        vals = [b[p] for p in fc.params]
        for nm, cond in fc.pre(c, *vals):
            c.ensure(f"call {fc.qual.split(':')[1]}: {nm}", cond)
            c.assume(cond)
        from .values import SymNum
        vals = [SymNum(z3.simplify(v.t)) if isinstance(v, SymNum) else v for v in vals]
        keep = list(vals)
        key = ("sum", fc.qual) + tuple(_vkey(v) for v in vals)
        if key in I.path.cache:
            return I.path.cache[key][0]
        if callable(fc.result):
            r = fc.result(c, *vals)
        else:
            r = SymNum((z3.Int if fc.result == "int" else z3.Real)(I.path.fresh_name("res_" + fc.qual.split(":")[1].replace(".", "_"))))
        I.path.cache[key] = (r, vals, keep)
        for nm, cond in fc.post(c, *(vals + [r])):
            c.assume(cond)
        return r
    return s


def _vkey(v):
    if isinstance(v, SymNum):
        return ("s", v.t.get_id())
    if isinstance(v, (PDict, PList, Obj)):
        if isinstance(v, PDict):
            return ("d",) + tuple((k, _vkey(x)) for k, x in zip(v.keys, v.vals))
        return ("o", id(v))
    return ("c", repr(v))


def owner(dec, k, nshards):
    """the shard that a path belongs to, by its first k decisions"""
    import zlib
    return zlib.crc32(repr([int(d) for d in dec[:k]]).encode()) % nshards


def explore(fn, cfg, max_paths=600, deadline=None, split=None):
    """run contract fn over all paths; returns obligations, stats.

    split=(k, shard, nshards): only the paths of that shard; every path belongs to exactly one.
    Paths with inferred loop invariants are not divided: a shard that meets one does the whole tree.

    Loop invariant candidates are pruned to an inductive subset first (Houdini)."""
    from .prover import Prover
    if split:
        houdini = {}
        obls, stats = explore_once(fn, dict(cfg, houdini=houdini), max_paths, deadline, split)
        if not houdini.get("_changed") and not any(o.name.startswith("cand|") for o in obls):
            return obls, stats
    houdini = {}
    pr = Prover()
    for rnd in range(30):
        houdini["_changed"] = False
        obls, stats = explore_once(fn, dict(cfg, houdini=houdini), max_paths, deadline)
        again = houdini["_changed"]
        status = {}
        for o in obls:
            if not o.name.startswith("cand|"):
                continue
            _, key, nm, ph = o.name.split("|")
            if nm in houdini.get(key, ()):
                continue
            st, bk, _ = pr.prove(o.facts, o.goal, 8)
            status[id(o)] = (st, bk)
            if st != "proved":
                houdini.setdefault(key, set()).add(nm)
                again = True
        stats["houdini_rounds"] = rnd + 1
        if not again:
            return obls, stats
        if deadline and time.time() > deadline:
            break
    stats["unsupported"] = "loop invariant inference did not converge"
    return [o for o in obls if not o.name.startswith("cand|")], stats


def explore_once(fn, cfg, max_paths=600, deadline=None, split=None):
    work = [[]]
    obls = []
    stats = dict(paths=0, aborted=0, unsupported=None, executed=set(), ensures=set(), summaries=set(), truncated=False,
                 covers=[], split=bool(split))
    while work:
        if stats["paths"] + stats["aborted"] >= max_paths or (deadline and time.time() > deadline):
            stats["truncated"] = True
            break
        prefix = work.pop()
        if split and len(prefix) >= split[0] and owner([d for d, _ in prefix], split[0], split[2]) != split[1]:
            continue
        path = IM.Path(prefix)
        path.split = split
        I = IM.Interp(path, obls, cfg)
        ctx = SymCtx(I, path, obls)
        I.ctx = ctx
        I.unroll_symbolic = cfg.get("unroll", 0)
        mark = len(obls)
        try:
            fn(ctx)
            if split and owner(path.dec, split[0], split[2]) != split[1]:
                # (a path with fewer than k decisions that belongs to another shard)
                if not any(o.name.startswith("cand|") for o in obls[mark:]):
                    del obls[mark:]
                work.extend(path.pending)
                continue
            stats["paths"] += 1
            stats["covers"].append(list(path.facts))
        except IM.OtherShard:
            del obls[mark:]
            work.extend(path.pending)
            continue
        except (IM.PathAbort, Skip):
            stats["aborted"] += 1
        except PyRaise as e:
            ctx.ensure("no exception escapes", False, note=repr(e.exc))
            stats["paths"] += 1
        except Unsupported as e:
            # is the path real?
            if path.solver.check() != z3.unsat:
                stats["unsupported"] = str(e)
                stats["paths"] += 1
        except (IM._Return, IM._Break, IM._Continue) as e:
            stats["unsupported"] = f"control flow {type(e).__name__}"
        except RecursionError:
            stats["unsupported"] = "recursion"
        stats["executed"] |= I.executed
        stats["summaries"] |= I.used_summaries
        stats["ensures"] |= ctx.reached
        work.extend(path.pending)
    return obls, stats
