"""Concrete side of the contract language: the same contract executed against the real code."""
import importlib
import math
import operator
import random
import sys
from fractions import Fraction
from .api import Out, Skip


class Violation(Exception):
    def __init__(self, name, note=""):
        self.name, self.note = name, note
        Exception.__init__(self, name)


REL = 1e-6


def _num(v):
    return float(v) if type(v).__name__ == "Decimal" else v


class ConCtx:
    symbolic = False

    def __init__(self, rnd=None, values=None):
        self.rnd = rnd or random.Random(0)
        self.values = values or {}
        self.inputs = {}
        self.reached = {}
        self.failed = []

    def _pick(self, name, gen):
        if name in self.values and self.values[name] is not None:
            v = self.values[name]
        else:
            v = gen()
        self.inputs[name] = v
        return v

    def int(self, name, lo=None, hi=None, rng=None):
        a, b = rng if rng else (lo if lo is not None else -1000, hi if hi is not None else 10 ** 6)

        def gen():
            r = self.rnd.random()
            if r < 0.12:
                return a
            if r < 0.2:
                return b
            if r < 0.35:
                return max(a, min(b, a + self.rnd.randint(0, 5)))
            if a >= 0 and r < 0.75:
                bl = self.rnd.randint(0, max(1, b.bit_length()))
                return max(a, min(b, self.rnd.getrandbits(bl) if bl else 0))
            if a >= 0 and r < 0.82:
                bl = self.rnd.randint(0, max(1, b.bit_length()))
                return max(a, min(b, (1 << bl) + self.rnd.choice([-1, 0, 1])))
            return self.rnd.randint(a, b)
        v = int(self._pick(name, gen))
        if (lo is not None and v < lo) or (hi is not None and v > hi):
            raise Skip()
        return v

    def real(self, name, lo=None, hi=None, gt=None, lt=None, rng=None, log=True):
        base = lo if lo is not None else gt
        top = hi if hi is not None else lt
        a, b = rng if rng else (base if base is not None else -1000.0, top if top is not None else 1e4)
        a, b = float(a), float(b)

        def gen():
            r = self.rnd.random()
            if lo is not None and r < 0.08:
                return float(lo)
            if hi is not None and r < 0.14:
                return float(hi)
            if a >= 0 and b > 0 and log:
                la = math.log(a if a > 0 else min(1e-3, b / 1e4))
                v = math.exp(self.rnd.uniform(la, math.log(b)))
                v = max(a, min(b, v))
                if self.rnd.random() < 0.3 and v > 1:
                    v = float(round(v))
                if a <= v <= b:
                    return v
            if a < 0 < b and log:
                m = math.exp(self.rnd.uniform(math.log(1e-3), math.log(max(b, 1e-2)))) * self.rnd.choice([-1, 1])
                return max(a, min(b, m))
            return self.rnd.uniform(a, b)
        v = self._pick(name, gen)
        v = float(Fraction(v)) if isinstance(v, str) else float(v)
        self.inputs[name] = v
        if (lo is not None and v < lo) or (hi is not None and v > hi) or (gt is not None and v <= gt) or (lt is not None and v >= lt):
            raise Skip()
        return v

    def choice(self, name, options):
        options = list(options)
        k = self._pick("#" + name, lambda: self.rnd.randrange(len(options)))
        return options[int(k) % len(options)]

    def bool(self, name):
        return self.choice(name, [True, False])

    def string(self, name):
        pool = ["ETH", "USDC", "BNT", "LINK", "DAI", "WBTC", "TKN", "ABC"]
        return self._pick(name, lambda: self.rnd.choice(pool))

    def lift(self, v):
        return v

    def record(self, **kw):
        """a plain object with the given attributes: stands for any object that satisfies the attribute contracts"""
        import types
        return types.SimpleNamespace(**kw)

    def assume(self, cond):
        if not cond:
            raise Skip()

    def prune(self):
        pass

    def split(self, cond):
        return bool(cond)

    def ensure(self, name, cond, note=""):
        self.reached[name] = self.reached.get(name, 0) + 1
        if not cond:
            self.failed.append((name, note))

    def _f(self, ref):
        if not isinstance(ref, str):
            return ref
        mod, _, rest = ref.partition(":")
        v = importlib.import_module(mod)
        for p in rest.split("."):
            v = getattr(v, p)
        return v

    def call(self, ref, *args, **kw):
        out = self.try_(ref, *args, **kw)
        if not out.ok:
            self.ensure("no exception from %s" % (ref if isinstance(ref, str) else "call"), False, note=repr(out.exc)[:300])
            raise Skip()
        return out.value

    def try_(self, ref, *args, **kw):
        f = self._f(ref)
        try:
            return Out(f(*args, **kw))
        except Exception as e:
            return self._exc(e)

    def _exc(self, e):
        return Out(None, e, [c.__name__ for c in type(e).__mro__])

    def meth(self, o, name, *args, **kw):
        out = self.try_meth(o, name, *args, **kw)
        if not out.ok:
            self.ensure("no exception from .%s" % name, False, note=repr(out.exc)[:300])
            raise Skip()
        return out.value

    def try_meth(self, o, name, *args, **kw):
        try:
            return Out(getattr(o, name)(*args, **kw))
        except Exception as e:
            return self._exc(e)

    def attr(self, o, name):
        out = self.try_attr(o, name)
        if not out.ok:
            self.ensure("no exception from attribute %s" % name, False, note=repr(out.exc)[:300])
            raise Skip()
        return out.value

    def try_attr(self, o, name):
        try:
            return Out(getattr(o, name))
        except Exception as e:
            return self._exc(e)

    def setattr(self, o, name, v):
        setattr(o, name, v)

    def const(self, ref):
        return self._f(ref)

    def op(self, sym, a, b):
        m = {"+": operator.add, "-": operator.sub, "*": operator.mul, "/": operator.truediv, "//": operator.floordiv,
             "%": operator.mod, "**": operator.pow, "<<": operator.lshift, ">>": operator.rshift,
             "+=": operator.iadd, "-=": operator.isub, "*=": operator.imul, "/=": operator.itruediv, "//=": operator.ifloordiv,
             "%=": operator.imod, "**=": operator.ipow, "<<=": operator.ilshift, ">>=": operator.irshift,
             "<": operator.lt, "<=": operator.le, ">": operator.gt, ">=": operator.ge, "==": operator.eq, "!=": operator.ne}
        try:
            return Out(m[sym](a, b))
        except Exception as e:
            return self._exc(e)

    def unop(self, name, *a):
        import builtins
        f = getattr(builtins, name, None) or getattr(math, name)
        try:
            return Out(f(*a))
        except Exception as e:
            return self._exc(e)

    def items(self, v):
        return list(v)

    def item(self, o, k):
        return o[k]

    def dict_items(self, d):
        return list(d.items())

    def is_none(self, v):
        return v is None

    def same(self, a, b):
        return a is b

    def is_str_eq(self, a, b):
        return a == b

    def pyeq(self, a, b):
        return a == b

    def snapshot(self, *objs):
        out, seen, keep = {}, {}, []

        def go(v, p):
            if isinstance(v, (int, float, str, bool, type(None), Fraction)):
                out[p] = v
                return
            if isinstance(v, tuple):
                for i, x in enumerate(v):
                    go(x, "%s(%d)" % (p, i))
                return
            if id(v) in seen:
                out[p + "@"] = ("ref", seen[id(v)])
                return
            seen[id(v)] = p
            keep.append(v)
            if isinstance(v, dict):
                out[p + "#keys"] = repr(list(v.keys()))
                for k, x in v.items():
                    go(x, "%s[%s]" % (p, k))
            elif isinstance(v, (list, set)):
                out[p + "#len"] = len(v)
                for i, x in enumerate(v):
                    go(x, "%s[%d]" % (p, i))
            elif type(v).__module__.split(".")[0] in ("carbon", "core", "CarbonCurves"):
                for k in sorted(vars(v)):
                    go(vars(v)[k], "%s.%s" % (p, k))
            else:
                out[p] = ("opaque", type(v).__name__)
        for i, o in enumerate(objs):
            go(o, "$%d" % i)
        return out

    def unchanged(self, s1, s2, ignore=()):
        f = lambda s: {k: v for k, v in s.items() if not any(k.endswith(x) or x in k for x in ignore)}
        a, b = f(s1), f(s2)
        if set(a) != set(b):
            return False
        return all(a[k] == b[k] or (a[k] != a[k] and b[k] != b[k]) for k in a)

    def And(self, *a): return all(a)
    def Or(self, *a): return any(a)
    def Not(self, a): return not a
    def Implies(self, a, b): return (not a) or b
    def If(self, c, a, b): return a if c else b

    def _tol(self, a, b, scale, tol):
        if isinstance(a, (int, Fraction)) and isinstance(b, (int, Fraction)):
            return 0
        a, b = float(a), float(b)
        s = max(abs(a), abs(b), abs(scale) if scale is not None else 0)
        return (tol or REL) * s + 1e-300

    def eq(self, a, b, scale=None, tol=None):
        if a is None or b is None:
            return a is b
        a, b = _num(a), _num(b)
        if a != a or b != b:
            return False
        if a == b:
            return True
        return abs(a - b) <= self._tol(a, b, scale, tol)

    def le(self, a, b, scale=None, tol=None):
        a, b = _num(a), _num(b)
        return a <= b or a <= b + self._tol(a, b, scale, tol)

    def ge(self, a, b, scale=None, tol=None):
        return self.le(b, a, scale, tol)

    def lt(self, a, b, scale=None, tol=None):
        a, b = _num(a), _num(b)
        if isinstance(a, (int, Fraction)) and isinstance(b, (int, Fraction)):
            return a < b
        return a < b + self._tol(a, b, scale, tol)

    def gt(self, a, b, scale=None, tol=None):
        return self.lt(b, a, scale, tol)

    def div(self, a, b):
        if isinstance(a, int) and isinstance(b, int):
            return Fraction(a, b)
        return a / b

    def sqrt(self, a):
        return math.sqrt(a) if a > 0 else 0.0

    def dec(self, a):
        from decimal import Decimal
        return Decimal(a)

    def flt(self, a):
        return float(a)

    def pow2(self, n): return 2 ** n
    def pow10(self, n): return 10 ** n
    def floor(self, a): return math.floor(a)
    def ceil(self, a): return math.ceil(a)

    def exact(self, a, b):
        return a == b

    def rational(self, p, q=1):
        return p / q if q != 1 else p

    def isint(self, v):
        return isinstance(v, int)

    def closed_list(self, v):
        return True

    def total(self, lst, field):
        return sum((getattr(x, field) if field else x) for x in lst)

    def symlist(self, name, make, maxlen=4):
        n = self._pick(name + "_len", lambda: self.rnd.randint(0, maxlen))
        n = max(0, min(int(n), maxlen))
        return [make("%s%d_" % (name, i + 1)) for i in range(n)]

    def length(self, v):
        return len(v)

    def loop_invariant(self, fn, fields=()):
        pass

    def on_append(self, fn):
        pass

    def builtin(self, name, *args):
        import importlib
        mod, name = name.split(".") if "." in name else ("builtins", name)
        return getattr(importlib.import_module(mod), name)(*args)

    def func(self, pyfn, name):
        return pyfn
