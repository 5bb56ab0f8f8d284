"""Models of the Python builtins and of the math/dataclasses/copy modules used by /repo."""
from fractions import Fraction
import builtins as _bi
import ast
import z3
from .values import *


def install_builtins(I):
    from . import interp as IM
    B = I.builtins
    Builtin, ClassInfo, Obj_ = IM.Builtin, IM.ClassInfo, Obj

    for n in IM.EXC_NAMES:
        B[n] = getattr(_bi, n)
    B["NotImplemented"] = Opaque("NotImplemented")
    B["Ellipsis"] = Opaque("...")
    B["object"] = object
    B["True"], B["False"], B["None"] = True, False, None

    def reg(name):
        def d(fn):
            B[name] = Builtin(name, fn)
            return fn
        return d

    # types usable both as callables and in isinstance
    class T:
        pass
    for t in (int, float, str, bool, list, tuple, dict, set, frozenset, slice, type):
        B[t.__name__] = t

    def isinst(v, t):
        if isinstance(t, tuple):
            return any(isinst(v, x) for x in t)
        if isinstance(t, PList):
            return any(isinst(v, x) for x in t.items)
        if isinstance(t, ClassInfo):
            if isinstance(v, Obj):
                return v.cls.issub(t)
            if isinstance(v, ExcVal):
                return isinstance(v.cls, ClassInfo) and v.cls.issub(t)
            if isinstance(v, PDict) and v.cls is not None:
                return v.cls.issub(t)
            return False
        if t is int:
            return (isinstance(v, int)) or (isinstance(v, SymNum) and v.isint) or isinstance(v, SymBool)
        if t is float:
            return isinstance(v, (Fraction, float)) or (isinstance(v, SymNum) and not v.isint)
        if t is bool:
            return isinstance(v, (bool, SymBool))
        if t is str:
            return isinstance(v, (str, SStr))
        if t is list:
            return isinstance(v, (PList, SymList, GhostList, FilterList)) and not isinstance(v, PIter)
        if t is tuple:
            return isinstance(v, tuple)
        if t is dict:
            return isinstance(v, PDict)
        if t is set or t is frozenset:
            return isinstance(v, PSet)
        if t is slice:
            return isinstance(v, slice)
        if t is object:
            return True
        if isinstance(t, type) and issubclass(t, BaseException):
            return isinstance(v, ExcVal) and IM.is_subexc(v.cls, t)
        if t is type:
            return isinstance(v, (ClassInfo, type))
        if isinstance(t, Opaque):
            if t.name in ("numbers.Number", "Number"):
                return is_num(v)
            if isinstance(v, Opaque):
                raise Unsupported(f"isinstance on external value {v!r}")
            return False
        raise Unsupported(f"isinstance {t!r}")

    reg("isinstance")(isinst)

    def issubclass_(a, b):
        if isinstance(b, tuple):
            return any(issubclass_(a, x) for x in b)
        if isinstance(a, ClassInfo):
            return a.issub(b)
        raise Unsupported("issubclass")
    reg("issubclass")(issubclass_)

    def type_(v):
        if isinstance(v, Obj):
            return v.cls
        if isinstance(v, PDict) and v.cls is not None:
            return v.cls
        for t in (bool, int, float, str, list, tuple, dict):
            if isinst(v, t):
                return t
        if isinstance(v, ExcVal):
            return v.cls
        raise Unsupported("type()")

    def length(v):
        if isinstance(v, PIter):
            I.raise_(TypeError, "an iterator has no len()")
        if isinstance(v, (PList, PSet)):
            return len(v.items)
        if isinstance(v, (tuple, str)):
            return len(v)
        if isinstance(v, PDict):
            return len(v.keys)
        if isinstance(v, (SymList, GhostList)):
            return v.length
        if isinstance(v, BinDigits):
            return v.nbits()
        if isinstance(v, Obj):
            m = v.cls.lookup("__len__")
            if m is not IM._MISSING:
                return I.call(IM.Bound(m, v))
            I.raise_(TypeError, "no len")
        if v is None or is_num(v):
            I.raise_(TypeError, "object has no len()")
        if isinstance(v, Opaque):
            return Opaque("len")
        raise Unsupported(f"len of {v!r}")
    reg("len")(length)
    I.length = length

    def dunder(v, name, *args):
        m = v.cls.lookup(name)
        if m is IM._MISSING:
            I.raise_(TypeError, name)
        return I.call(IM.Bound(m, v), args)

    def abs_(v):
        if isinstance(v, Obj):
            return dunder(v, "__abs__")
        if isinstance(v, Opaque):
            return v
        if not is_num(v):
            I.raise_(TypeError, "abs")
        if is_conc_num(v):
            return abs(v)
        return v if I.branch(num_cmp(">=", v, 0)) else num_sub(0, v)
    reg("abs")(abs_)

    def mm(name, op):
        def f(*args, key=None, default=IM._MISSING):
            vals = I.iterate(args[0]) if len(args) == 1 else list(args)
            if not vals:
                if default is not IM._MISSING:
                    return default
                I.raise_(ValueError, f"{name}() arg is an empty sequence")
            best = vals[0]
            kb = I.call(key, [best]) if key is not None else best
            for x in vals[1:]:
                kx = I.call(key, [x]) if key is not None else x
                if I.truth(I.compare(op, kx, kb)):
                    best, kb = x, kx
            return best
        reg(name)(f)
    import ast
    mm("max", ast.Gt())
    mm("min", ast.Lt())

    def sum_(it, start=0):
        if isinstance(it, GhostList):
            raise Unsupported("sum of ghost list")
        r = start
        for x in I.iterate(it):
            r = I.binop(ast.Add, r, x)
        return r
    reg("sum")(sum_)

    def to_int(v=0, base=None):
        if isinstance(v, Obj):
            return dunder(v, "__int__")
        if base is not None:
            if isinstance(v, str):
                try:
                    return int(v, base)
                except ValueError:
                    I.raise_(ValueError, "invalid literal")
            if isinstance(v, SStr) and len(v.parts) == 1 and isinstance(v.parts[0], StrAtom) and base == 16 and v.parts[0].hexnum is not None:
                return v.parts[0].hexnum        # hex/int round trip
            raise Unsupported("int(symbolic, base)")
        if isinstance(v, (bool, int)):
            return int(v)
        if isinstance(v, SymBool):
            return SymNum(term(v))
        if isinstance(v, Fraction):
            return int(v)
        if isinstance(v, float):
            I.raise_(OverflowError if v == v else ValueError, "int")
        if isinstance(v, str):
            try:
                return int(v)
            except ValueError:
                I.raise_(ValueError, "invalid literal")
        if isinstance(v, SymNum):
            if v.isint:
                return v
            if z3.is_to_real(v.t):
                return SymNum(v.t.arg(0))
            if I.branch(num_cmp(">=", v, 0)):
                return floor_(v)
            return num_sub(0, floor_(num_sub(0, v)))
        if v is None or isinstance(v, (PList, tuple, PDict)):
            I.raise_(TypeError, "int()")
        if isinstance(v, SStr) and len(v.parts) == 1 and isinstance(v.parts[0], StrAtom) and v.parts[0].num is not None and v.parts[0].num.isint:
            return v.parts[0].num
        raise Unsupported(f"int({v!r})")

    def floor_(v):
        if isinstance(v, Obj):
            return dunder(v, "__floor__")
        if isinstance(v, (int, Fraction)):
            from math import floor
            return floor(v)
        if isinstance(v, SymNum):
            if v.isint:
                return v
            t = z3.simplify(v.t)
            key = ("floor", t.get_id())
            if key not in I.path.cache:
                q = z3.Int(I.path.fresh_name("fl"))
                I.path.add(z3.ToReal(q) <= t)
                I.path.add(t < z3.ToReal(q) + 1)
                I.path.cache[key] = (SymNum(q), t)
            return I.path.cache[key][0]
        raise Unsupported("floor")

    def ceil_(v):
        if isinstance(v, Obj):
            return dunder(v, "__ceil__")
        return num_sub(0, floor_(num_sub(0, v)))

    def trunc_(v):
        if isinstance(v, Obj):
            return dunder(v, "__trunc__")
        return to_int(v)

    def to_float(v=0):
        if isinstance(v, Obj):
            return dunder(v, "__float__")
        if isinstance(v, str):
            try:
                f = float(v)
            except ValueError:
                I.raise_(ValueError, "could not convert string to float")
            return f if f != f or f in (float("inf"), float("-inf")) else Fraction(repr(f))
        if is_num(v):
            return as_real(v)
        if isinstance(v, SStr) and len(v.parts) == 1 and getattr(v.parts[0], "num", None) is not None:
            return as_real(v.parts[0].num)      # str/float round trip is exact
        if v is None or isinstance(v, (tuple, PList, PDict)):
            I.raise_(TypeError, "float()")
        raise Unsupported(f"float({v!r})")

    def round_(v, n=None):
        if isinstance(v, Obj):
            m = v.cls.lookup("__round__")
            if m is IM._MISSING:
                I.raise_(TypeError, "round")
            return I.call(IM.Bound(m, v), [] if n is None else [n])
        if isinstance(v, (int, Fraction)) and (n is None or isinstance(n, int)):
            r = round(v, n) if n is not None else round(v)
            return r
        if isinstance(v, float):
            return v
        if isinstance(v, SymNum):
            if v.isint and (n is None or (isinstance(n, int) and n >= 0)):
                return v
            if n is None:
                q = z3.Int(I.path.fresh_name("rnd"))
                I.path.add(z3.And(2 * (toreal(v.t) - z3.ToReal(q)) <= 1, 2 * (z3.ToReal(q) - toreal(v.t)) <= 1))
                return SymNum(q)
            if isinstance(n, int):
                key = ("round", z3.simplify(v.t).get_id(), n)
                if key not in I.path.cache:
                    q = z3.Int(I.path.fresh_name("rnd"))
                    sc = Fraction(10) ** n
                    x = toreal(v.t) * z3.RealVal(sc)
                    I.path.add(z3.And(2 * (x - z3.ToReal(q)) <= 1, 2 * (z3.ToReal(q) - x) <= 1))
                    I.path.cache[key] = (SymNum(z3.ToReal(q) / z3.RealVal(sc)), v)
                return I.path.cache[key][0]
        if isinstance(v, Opaque):
            return v
        if v is None or isinstance(v, str):
            I.raise_(TypeError, "round")
        raise Unsupported("round")
    reg("round")(round_)

    def to_str(v=""):
        return I.to_str(v)

    def to_list(v=()):
        if isinstance(v, (SymList, FilterList)):
            return v
        return PList(I.iterate(v))

    def to_tuple(v=()):
        if isinstance(v, (SymList, FilterList)):
            return v
        return tuple(I.iterate(v))

    def to_set(v=()):
        return PSet(I.dedup(I.iterate(v)))

    def to_dict(*a, **k):
        d = PDict()
        if a:
            if isinstance(a[0], PDict):
                for kk, vv in zip(a[0].keys, a[0].vals):
                    I.dict_set(d, kk, vv)
            else:
                for p in I.iterate(a[0]):
                    kk, vv = I.iterate(p)
                    I.dict_set(d, kk, vv)
        for kk, vv in k.items():
            I.dict_set(d, kk, vv)
        return d

    def to_bool(v=False):
        if isinstance(v, (bool, SymBool)):
            return v
        return I.truth(v)

    I.type_calls = {int: to_int, float: to_float, str: to_str, list: to_list, tuple: to_tuple, set: to_set,
                    frozenset: to_set, dict: to_dict, bool: to_bool, slice: slice, type: type_, object: lambda: Obj(None)}
    I.floor_, I.ceil_, I.to_int = floor_, ceil_, to_int

    @reg("range")
    def range_(*a):
        a = [x for x in a]
        if all(isinstance(x, int) for x in a):
            return PList(range(*a))
        if len(a) == 1:
            return IM.SymRange(0, a[0])
        if len(a) == 2:
            return IM.SymRange(a[0], a[1])
        raise Unsupported("symbolic range with step")

    @reg("enumerate")
    def enumerate_(it, start=0):
        return PIter([(start + i, x) for i, x in enumerate(I.iterate(it))])

    @reg("zip")
    def zip_(*its):
        if any(isinstance(x, PIter) and any(x is y for y in its[:i]) for i, x in enumerate(its)):
            raise Unsupported("zip of one iterator with itself")
        return PIter([tuple(t) for t in zip(*[I.iterate(x) for x in its])])

    @reg("map")
    def map_(f, *its):
        return PIter([I.call(f, list(t)) for t in zip(*[I.iterate(x) for x in its])])

    @reg("filter")
    def filter_(f, it):
        return PIter([x for x in I.iterate(it) if I.truth(I.call(f, [x]) if f is not None else x)])

    @reg("any")
    def any_(it):
        ts = []
        for x in I.iterate(it):
            if isinstance(x, SymBool):
                ts.append(x.t)
            elif I.truth(x):
                return True
        return mkbool(z3.Or(ts)) if ts else False

    @reg("all")
    def all_(it):
        ts = []
        for x in I.iterate(it):
            if isinstance(x, SymBool):
                ts.append(x.t)
            elif not I.truth(x):
                return False
        return mkbool(z3.And(ts)) if ts else True

    @reg("reversed")
    def reversed_(it):
        return PIter(list(reversed(I.iterate(it))))

    @reg("iter")
    def iter_(it):
        if isinstance(it, PIter):
            return it
        if isinstance(it, Obj) and it.cls.lookup("__next__") is not IM._MISSING and it.cls.lookup("__iter__") is not IM._MISSING:
            return dunder(it, "__iter__")
        return PIter(I.iterate(it))

    @reg("next")
    def next_(it, default=IM._MISSING):
        if isinstance(it, (PList, tuple, PDict, PSet)) and not isinstance(it, PIter):
            I.raise_(TypeError, "object is not an iterator")
        if isinstance(it, PIter):
            if it.items:
                return it.items.pop(0)
            if default is not IM._MISSING:
                return default
            I.raise_(StopIteration)
        if isinstance(it, Obj):
            try:
                return dunder(it, "__next__")
            except IM.PyRaise as ex:
                if default is not IM._MISSING and IM.is_subexc(ex.exc.cls, StopIteration):
                    return default
                raise
        if isinstance(it, Counter):
            v = it.value
            it.value = num_add(v, it.step)
            return v
        raise Unsupported("next")

    def chain(*its):
        return PIter([x for it in its for x in I.iterate(it)])

    def combinations(it, r):
        import itertools as itl
        return PList([tuple(x) for x in itl.combinations(I.iterate(it), r)])

    def permutations(it, r=None):
        import itertools as itl
        return PList([tuple(x) for x in itl.permutations(I.iterate(it), r)])

    def product(*its):
        import itertools as itl
        return PList([tuple(x) for x in itl.product(*[I.iterate(i) for i in its])])

    @reg("sorted")
    def sorted_(it, key=None, reverse=False):
        items = I.iterate(it)
        ks = [I.call(key, [x]) if key is not None else x for x in items]
        out = []
        rev = I.truth(reverse)
        for x, k in zip(items, ks):
            pos = len(out)
            # stable insertion: move left while strictly smaller (or larger if reversed)
            while pos > 0:
                kk = out[pos - 1][1]
                if isinstance(k, CmpKey):
                    c = I.call(k.cmp, [k.v, kk.v] if not rev else [kk.v, k.v])
                    less = I.truth(num_cmp("<", c, 0))
                else:
                    less = I.truth(I.compare(ast.Lt() if not rev else ast.Gt(), k, kk))
                if not less:
                    break
                pos -= 1
            out.insert(pos, (x, k))
        return PList([x for x, _ in out])
    I.sorted_ = sorted_

    @reg("divmod")
    def divmod_(a, b):
        if isinstance(a, Obj):
            return dunder(a, "__divmod__", b)
        if isinstance(b, Obj):
            return dunder(b, "__rdivmod__", a)
        return (I.numop(ast.FloorDiv, a, b), I.numop(ast.Mod, a, b))

    @reg("pow")
    def pow_(a, b):
        return I.binop(ast.Pow, a, b)

    @reg("getattr")
    def getattr_(o, n, d=IM._MISSING):
        return I.getattr(o, n, d)

    @reg("setattr")
    def setattr_(o, n, v):
        return I.setattr(o, n, v)

    @reg("hasattr")
    def hasattr_(o, n):
        m = object()
        return I.getattr(o, n, m) is not m

    @reg("callable")
    def callable_(o):
        return isinstance(o, (IM.Func, IM.Bound, Builtin, ClassInfo)) or (isinstance(o, Obj) and o.cls.lookup("__call__") is not IM._MISSING)

    @reg("id")
    def id_(o):
        return id(o)

    @reg("repr")
    def repr_(o):
        return I.fresh_str("repr")

    @reg("hash")
    def hash_(o):
        raise Unsupported("hash")

    @reg("bin")
    def bin_(v):
        if isinstance(v, int):
            return bin(v)
        if isinstance(v, SymNum) and v.isint:
            return BinStr(v, I)
        I.raise_(TypeError, "bin")

    @reg("hex")
    def hex_(v):
        if isinstance(v, int):
            return hex(v)
        if isinstance(v, SymNum) and v.isint:
            key = ("hex", z3.simplify(v.t).get_id())
            if key not in I.path.cache:
                st = I.fresh_str("hex")
                st.parts[0].hexnum = v
                I.path.cache[key] = (st, v)
            return I.path.cache[key][0]
        I.raise_(TypeError, "hex")

    @reg("format")
    def format_(v, spec=""):
        if spec == "b" and isinstance(v, SymNum) and v.isint:
            return BinDigits(v, I)
        return I.fresh_str("fmt")

    @reg("vars")
    def vars_(o):
        return PDict(list(o.f.items()))

    @reg("property")
    def prop_(f=None, fset=None):
        return IM.Prop(f, fset)
    B["staticmethod"] = Builtin("staticmethod", lambda f: IM.StaticM(f))
    B["classmethod"] = Builtin("classmethod", lambda f: IM.ClassM(f))
    B["Decimal"] = float

    def nbits(v):
        """number of binary digits of v>0 (0 for v==0)"""
        key = ("nbits", z3.simplify(v.t).get_id())
        if key not in I.path.cache:
            n = z3.Int(I.path.fresh_name("nbits"))
            sn = SymNum(n)
            I.path.add(n >= 0)
            I.path.add(z3.Implies(v.t > 0, n >= 1))
            I.path.add(z3.Implies(v.t == 0, n == 0))
            p = I.pow2(sn)
            pt = term(p)
            I.path.add(z3.Implies(v.t > 0, z3.And(v.t < pt, pt <= 2 * v.t)))
            I.path.cache[key] = (sn, v)
        return I.path.cache[key][0]
    I.nbits = nbits

    # ---- math --------------------------------------------------------------
    def sqrt_(v):
        if isinstance(v, Obj):
            v = dunder(v, "__float__")
        if not is_num(v):
            if isinstance(v, Opaque):
                return v
            I.raise_(TypeError, "must be real number")
        return I.sqrt(v)

    def isnan_(v):
        if isinstance(v, float):
            return v != v
        if is_num(v):
            return False
        I.raise_(TypeError, "isnan")

    def log_(name):
        def f(v, *b):
            if b:
                return I.uf(name, v, *b)
            if is_conc_num(v):
                if v <= 0:
                    I.raise_(ValueError, "math domain error")
            elif I.branch(num_cmp("<=", v, 0)):
                I.raise_(ValueError, "math domain error")
            return I.uf(name, v)
        return f

    def exp_(v):
        r = I.uf("exp", v)
        I.ctx.assume(num_cmp(">", r, 0))
        return r

    def isclose_(a, b, rel_tol=Fraction(1, 10 ** 9), abs_tol=0):
        if not is_num(a) or not is_num(b):
            I.raise_(TypeError, "isclose")
        if isinstance(a, float) or isinstance(b, float):
            raise Unsupported("isclose of a special float")
        if is_conc_num(a) and is_conc_num(b) and is_conc_num(rel_tol) and is_conc_num(abs_tol):
            return abs(a - b) <= max(rel_tol * max(abs(a), abs(b)), abs_tol)
        ab = lambda v: z3.If(v >= 0, v, -v)
        x, y, r, t = [as_real_term(v) for v in (a, b, rel_tol, abs_tol)]
        d = ab(x - y)
        return mkbool(z3.Or(d <= r * ab(x), d <= r * ab(y), d <= t))

    def as_real_term(v):
        t = term(v)
        return z3.ToReal(t) if z3.is_int(t) else t

    M = {"sqrt": Builtin("sqrt", sqrt_), "floor": Builtin("floor", floor_), "ceil": Builtin("ceil", ceil_),
         "trunc": Builtin("trunc", trunc_), "isnan": Builtin("isnan", isnan_),
         "isinf": Builtin("isinf", lambda v: isinstance(v, float) and v in (float("inf"), float("-inf"))),
         "log": Builtin("log", log_("log")), "log2": Builtin("log2", log_("log2")), "log10": Builtin("log10", log_("log10")),
         "exp": Builtin("exp", exp_),
         "isfinite": Builtin("isfinite", lambda v: not isinstance(v, float) or (v == v and v not in (float("inf"), float("-inf")))), "pow": Builtin("pow", lambda a, b: I.power(as_real(a), b)),
         "inf": float("inf"), "nan": float("nan"), "fabs": Builtin("fabs", abs_),
         "isqrt": Builtin("isqrt", lambda v: floor_(I.sqrt(as_real(v)))),
         "isclose": Builtin("isclose", isclose_),
         "fsum": Builtin("fsum", sum_), "prod": Builtin("prod", lambda it: _prod(it))}

    def _prod(it):
        r = 1
        for x in I.iterate(it):
            r = I.binop(ast.Mult, r, x)
        return r

    def field_(default=IM._MISSING, default_factory=None, init=True, repr=True, compare=True, **k):
        return IM.FieldDef(default, default_factory, init, compare)

    def asdict_(o):
        if isinstance(o, Obj):
            return PDict([(f.name, asdict_in(I.getattr(o, f.name))) for f in o.cls.fields() if not f.initvar])
        raise Unsupported("asdict")

    def asdict_in(v):
        if isinstance(v, Obj) and v.cls.has_dc():
            return asdict_(v)
        if isinstance(v, PList):
            return PList([asdict_in(x) for x in v.items])
        if isinstance(v, tuple):
            return tuple(asdict_in(x) for x in v)
        if isinstance(v, PDict):
            r = PDict([(k, asdict_in(x)) for k, x in zip(v.keys, v.vals)])
            return r if v.cls is None else I.instantiate(v.cls, [r], {})
        return copy_(v, {}) if isinstance(v, Obj) else v

    def astuple_(o):
        return tuple(asdict_(o).vals)

    def copy_(o, memo=None):
        if isinstance(o, Obj):
            m = o.cls.lookup("__copy__")
            if m is not IM._MISSING:
                return I.call(IM.Bound(m, o))
            return Obj(o.cls, o.f)
        if isinstance(o, PList):
            return PList(o.items)
        if isinstance(o, PDict):
            if o.cls is not None:
                raise Unsupported("copy of an instance of a dict subclass")
            return PDict(list(zip(o.keys, o.vals)))
        if isinstance(o, PSet):
            return PSet(o.items)
        return o

    def deepcopy_(o, memo=None):
        memo = memo if isinstance(memo, dict) else {}
        if id(o) in memo:
            return memo[id(o)]
        if isinstance(o, Obj):
            m = o.cls.lookup("__deepcopy__")
            if m is not IM._MISSING:
                return I.call(IM.Bound(m, o), [PDict()])
            n = Obj(o.cls)
            memo[id(o)] = n
            n.f = {k: deepcopy_(v, memo) for k, v in o.f.items()}
            return n
        if isinstance(o, PList):
            n = PList()
            memo[id(o)] = n
            n.items = [deepcopy_(x, memo) for x in o.items]
            return n
        if isinstance(o, PDict):
            if o.cls is not None:
                raise Unsupported("deepcopy of an instance of a dict subclass")
            n = PDict()
            memo[id(o)] = n
            n.keys = list(o.keys)
            n.vals = [deepcopy_(x, memo) for x in o.vals]
            return n
        if isinstance(o, tuple):
            return tuple(deepcopy_(x, memo) for x in o)
        return o

    def replace_(o, **kw):
        d = {f.name: I.getattr(o, f.name) for f in o.cls.fields() if f.init and not f.initvar}
        d.update(kw)
        return I.instantiate(o.cls, [], d)

    def fields_(o):
        cls = o if isinstance(o, ClassInfo) else o.cls
        return tuple(Obj(FakeCls("Field"), {"name": f.name}) for f in cls.fields() if not f.initvar)

    def json_snap(o):
        """the value json.loads gives back for what json.dumps was given"""
        if isinstance(o, (PList, tuple)):
            return PList([json_snap(x) for x in (o.items if isinstance(o, PList) else o)])
        if isinstance(o, PDict) and all(isinstance(k, str) for k in o.keys):
            return PDict([(k, json_snap(v)) for k, v in zip(o.keys, o.vals)])
        if o is None or isinstance(o, (str, SStr, bool)) or is_num(o):
            return o
        raise Unsupported("json")

    def json_dumps(o, **kw):
        st = I.fresh_str("json")
        st.parts[0].js = json_snap(o)
        return st

    def json_loads(st):
        if isinstance(st, SStr) and len(st.parts) == 1 and isinstance(st.parts[0], StrAtom) and st.parts[0].js is not None:
            return json_snap(st.parts[0].js)
        raise Unsupported("json.loads")

    def unsupported_(what):
        raise Unsupported("numpy/pandas contract: " + str(what))

    I.deepcopy_ = deepcopy_
    Decimal_ = Builtin("Decimal", lambda v=0: v if (isinstance(v, SymNum) and not v.isint) else to_float(v))
    I.extmods = {
        "math": M,
        "decimal": {"Decimal": Decimal_},
        "dataclasses": {"dataclass": Opaque("dataclass"), "field": Builtin("field", field_), "asdict": Builtin("asdict", asdict_),
                        "astuple": Builtin("astuple", astuple_), "replace": Builtin("replace", replace_),
                        "fields": Builtin("fields", fields_), "InitVar": Opaque("InitVar")},
        "copy": {"copy": Builtin("copy", copy_), "deepcopy": Builtin("deepcopy", deepcopy_)},
        "functools": {"cmp_to_key": Builtin("cmp_to_key", lambda f: Builtin("key", lambda v: CmpKey(f, v)))},
        "numbers": {"Number": Opaque("numbers.Number")},
        "typing": {}, "_pyvc": {"fresh_bool": Builtin("fresh_bool", lambda base: I.path.choose(2) == 1), "assume": Builtin("assume", lambda b: I.ctx.assume(b)),
                                "fresh_real": Builtin("fresh_real", lambda base: SymNum(z3.Real(I.path.fresh_name("any_" + base)))),
                                "unsupported": Builtin("unsupported", unsupported_)}, "itertools": {"count": Builtin("count", lambda start=0, step=1: Counter(start, step)), "chain": Builtin("chain", chain),
                      "combinations": Builtin("combinations", combinations), "permutations": Builtin("permutations", permutations),
                      "product": Builtin("product", product)},
         "time": {"time": Builtin("time", lambda: SymNum(z3.Real(I.path.fresh_name("any_time"))))}, "sys": {"float_info": Opaque("float_info")}, "re": {}, "json": {"dumps": Builtin("dumps", json_dumps), "loads": Builtin("loads", json_loads)}, "pickle": {},
    }

    # ---- methods on builtin values -------------------------------------------
    def builtin_method(o, name):
        def mk(f):
            return Builtin(name, f)
        if isinstance(o, (PList, PSet, PDict)) and I.loop_guard is not None and name in (
                "append", "extend", "pop", "insert", "reverse", "clear", "remove", "sort", "add", "update", "setdefault",
                "popitem", "discard"):
            I.guard(o)
        if isinstance(o, PIter):
            if name == "__next__":
                return mk(lambda: I.builtins["next"].fn(o) if hasattr(I.builtins["next"], "fn") else I.call(I.builtins["next"], [o]))
            if name == "__iter__":
                return mk(lambda: o)
            raise Unsupported(f"attribute {name} of an iterator")
        if isinstance(o, PList):
            if name == "append":
                def app(x):
                    o.items.append(x)
                    if I.append_hook:
                        I.append_hook(o, x)
                return mk(app)
            if name == "extend":
                return mk(lambda xs: o.items.extend(I.iterate(xs)))
            if name == "copy":
                return mk(lambda: PList(o.items))
            if name == "pop":
                def pop(i=-1):
                    if not o.items:
                        I.raise_(IndexError, "pop from empty list")
                    return o.items.pop(i)
                return mk(pop)
            if name == "insert":
                return mk(lambda i, x: o.items.insert(i, x))
            if name == "reverse":
                return mk(lambda: o.items.reverse())
            if name == "clear":
                return mk(lambda: o.items.clear())
            if name == "index":
                def index(x):
                    for i, y in enumerate(o.items):
                        if I.truth(I.eq(y, x)):
                            return i
                    I.raise_(ValueError, "not in list")
                return mk(index)
            if name == "remove":
                def remove(x):
                    for i, y in enumerate(o.items):
                        if I.truth(I.eq(y, x)):
                            del o.items[i]
                            return
                    I.raise_(ValueError, "not in list")
                return mk(remove)
            if name == "sort":
                def sort(key=None, reverse=False):
                    o.items = sorted_(o, key, reverse).items
                return mk(sort)
            if name == "count":
                return mk(lambda x: sum(1 for y in o.items if I.truth(I.eq(y, x))))
        if isinstance(o, GhostList):
            if name == "append":
                def app(x):
                    if I.append_hook:
                        I.append_hook(o, x)
                    o.length = num_add(o.length, 1)
                    for k in list(o.sums):
                        o.sums[k] = num_add(o.sums[k], x if k == "" else I.getattr(x, k))
                return mk(app)
        if isinstance(o, PSet):
            if name == "add":
                def add(x):
                    o.items = I.dedup(o.items + [x])
                return mk(add)
            if name in ("remove", "discard"):
                def sremove(x):
                    for i, y in enumerate(o.items):
                        if I.truth(I.eq(y, x)):
                            del o.items[i]
                            return
                    if name == "remove":
                        I.raise_(KeyError, x)
                return mk(sremove)
            if name == "clear":
                return mk(lambda: o.items.clear())
            if name == "pop":
                def spop():
                    if not o.items:
                        I.raise_(KeyError, "pop from an empty set")
                    if len(o.items) > 1:
                        raise Unsupported("pop from a set of several elements")
                    return o.items.pop()
                return mk(spop)
            if name == "copy":
                return mk(lambda: PSet(list(o.items)))
            if name == "update":
                def supdate(*os):
                    for x in os:
                        o.items = I.dedup(o.items + list(I.iterate(x)))
                return mk(supdate)
            if name in ("union", "intersection", "difference", "issubset", "issuperset"):
                def su(*os):
                    r = o
                    for x in os:
                        s = PSet(I.iterate(x))
                        if name == "issubset":
                            return all(I.truth(I.contains(s, y)) for y in r.items)
                        if name == "issuperset":
                            return all(I.truth(I.contains(r, y)) for y in s.items)
                        r = I.binop({"union": ast.BitOr, "intersection": ast.BitAnd, "difference": ast.Sub}[name], r, s)
                    return PSet(r.items)
                return mk(su)
        if isinstance(o, tuple):
            if name == "index":
                def index(x):
                    for i, y in enumerate(o):
                        if I.truth(I.eq(y, x)):
                            return i
                    I.raise_(ValueError, "not in tuple")
                return mk(index)
            if name == "count":
                return mk(lambda x: sum(1 for y in o if I.truth(I.eq(y, x))))
        if isinstance(o, PDict):
            if name == "keys":
                return mk(lambda: PList(o.keys))
            if name == "values":
                return mk(lambda: PList(o.vals))
            if name == "items":
                return mk(lambda: PList([(k, v) for k, v in zip(o.keys, o.vals)]))
            if name == "get":
                def get(k, d=None):
                    i = I.dict_find(o, k)
                    return d if i is None else o.vals[i]
                return mk(get)
            if name == "copy":
                return mk(lambda: PDict(list(zip(o.keys, o.vals))))
            if name == "pop":
                def pop(k, d=IM._MISSING):
                    i = I.dict_find(o, k)
                    if i is None:
                        if d is not IM._MISSING:
                            return d
                        I.raise_(KeyError, k)
                    v = o.vals[i]
                    del o.keys[i], o.vals[i]
                    return v
                return mk(pop)
            if name == "clear":
                def dclear():
                    del o.keys[:], o.vals[:]
                return mk(dclear)
            if name == "popitem":
                def popitem():
                    if not o.keys:
                        I.raise_(KeyError, "popitem(): dictionary is empty")
                    return (o.keys.pop(), o.vals.pop())
                return mk(popitem)
            if name == "update":
                def update(*a, **k):
                    src = to_dict(*a, **k)
                    for kk, vv in zip(src.keys, src.vals):
                        I.dict_set(o, kk, vv)
                return mk(update)
            if name == "setdefault":
                def setdefault(k, d=None):
                    i = I.dict_find(o, k)
                    if i is None:
                        I.dict_set(o, k, d)
                        return d
                    return o.vals[i]
                return mk(setdefault)
        if isinstance(o, str):
            if name in ("format",):
                return mk(lambda *a, **k: I.fresh_str("fmt"))
            if name == "join":
                def join(it):
                    parts = []
                    for i, x in enumerate(I.iterate(it)):
                        if i:
                            parts.append(o)
                        parts.append(x)
                    return I.strcat(parts)
                return mk(join)
            if name == "replace":
                def srep(old, new, cnt=-1):
                    if isinstance(old, str) and isinstance(new, SStr):
                        parts = []
                        for i, seg in enumerate(o.split(old, cnt) if old else I.raise_(ValueError, "empty")):
                            if i:
                                parts.append(new)
                            parts.append(seg)
                        return I.strcat(parts)
                    return o.replace(old, new, cnt)
                return mk(srep)
            if hasattr(o, name):
                def sm(*a, **k):
                    try:
                        r = getattr(o, name)(*a, **k)
                    except (ValueError, TypeError, IndexError) as e:
                        I.raise_(type(e), str(e))
                    if isinstance(r, list):
                        return PList(r)
                    return r
                return mk(sm)
            I.raise_(AttributeError, name)
        if isinstance(o, SStr):
            if name == "split":
                def split(sep=None, maxsplit=-1):
                    out, cur = [], []
                    for p in o.parts:
                        if isinstance(p, str) and sep is not None and sep in p:
                            segs = p.split(sep)
                            cur.append(segs[0])
                            for s in segs[1:]:
                                out.append(cur)
                                cur = [s]
                        else:
                            cur.append(p)
                    out.append(cur)
                    res = []
                    for c in out:
                        res.append(I.strcat([x if isinstance(x, str) else SStr([x]) for x in c]) if c else "")
                    return PList(res)
                return mk(split)
            if name in ("strip", "lower", "upper", "title", "lstrip", "rstrip"):
                def sop(*a):
                    key = ("strop", name, repr(o.parts), a)
                    if name == "strip" and not a:
                        return o
                    if key not in I.path.cache:
                        I.path.cache[key] = I.fresh_str(name)
                    return I.path.cache[key]
                return mk(sop)
            if name == "replace":
                return mk(lambda *a: I.fresh_str("rep"))
            if name in ("startswith", "endswith", "isupper", "find", "format", "join", "encode"):
                raise Unsupported(f"string method {name} on a symbolic string")
            I.raise_(AttributeError, name)
        if isinstance(o, BinStr):
            if name == "lstrip":
                def lst(chars=None):
                    if set(chars or "") == {"0", "b"}:
                        return BinDigits(o.v, I)
                    raise Unsupported("lstrip")
                return mk(lst)
        if is_num(o):
            if name == "sqrt":
                return mk(lambda: sqrt_(o))
            if name == "bit_length" and (isinstance(o, int) or (isinstance(o, SymNum) and o.isint)):
                if isinstance(o, int):
                    return mk(lambda: o.bit_length())
                def bl():
                    if I.branch(num_cmp("<", o, 0)):
                        return nbits(num_sub(0, o))
                    return nbits(o)
                return mk(bl)
            if name in ("__int__",):
                return mk(lambda: to_int(o))
            if name in ("__float__",):
                if isinstance(o, int) or isinstance(o, Fraction) or isinstance(o, SymNum):
                    return mk(lambda: to_float(o))
            if name in ("__str__", "__oct__", "__hex__", "__repr__"):
                return mk(lambda: I.fresh_str("num"))
            if name == "is_integer":
                return mk(lambda: num_cmp("==", floor_(o), o))
            if name in ("numerator", "real"):
                return o
            I.raise_(AttributeError, name)
        if o is None:
            I.raise_(AttributeError, f"NoneType has no attribute {name}")
        if isinstance(o, (IM.Func, IM.Bound)):
            if name == "__name__":
                return (o.func if isinstance(o, IM.Bound) else o).name
            if name == "__doc__":
                return "doc"
        if isinstance(o, type):
            if name == "__name__":
                return o.__name__
            if o is object and name == "__setattr__":
                def osa(ob, k, v):
                    ob.f[k] = v
                return Builtin("object.__setattr__", osa)
            if o is dict and name == "fromkeys":
                return mk(lambda ks, v=None: PDict([(k, v) for k in I.dedup(I.iterate(ks))]))
            if o is int and name == "bit_length":
                return mk(lambda v: I.call(builtin_method(v, "bit_length")))
            if o in (int, float, str, list, dict, set):
                return mk(lambda v, *a, **k: I.call(builtin_method(v, name), list(a), k))
        if isinstance(o, Builtin) and o.name == "Decimal":
            return mk(lambda v, *a, **k: I.call(builtin_method(v, name), list(a), k))
        if isinstance(o, IM.Prop):
            if name == "fget":
                return o.fget
        for t, k in ((PList, list), (tuple, tuple), (PDict, dict), (PSet, set), (str, str), (bool, bool), (int, int)):
            if isinstance(o, t) and not isinstance(o, PIter) and not hasattr(k, name):
                I.raise_(AttributeError, f"'{k.__name__}' object has no attribute '{name}'")
        raise Unsupported(f"attribute {name} of {type(o).__name__}")

    I.builtin_method = builtin_method


class FakeCls:
    def __init__(self, name):
        self.name = name

    def lookup(self, name, start=None):
        from .interp import _MISSING
        return _MISSING

    def has_dc(self):
        return False
    frozen = False


class CmpKey:
    def __init__(self, cmp, v):
        self.cmp, self.v = cmp, v


class BinStr:
    def __init__(self, v, I):
        self.v, self.I = v, I


class BinDigits:
    def __init__(self, v, I):
        self.v, self.I = v, I

    def nbits(self):
        return self.I.nbits(self.v)
