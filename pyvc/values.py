"""Value domain of the symbolic interpreter (numbers, strings, heap objects)."""
from fractions import Fraction
import z3


class Unsupported(Exception):
    """the construct is outside the subset the VC generator handles"""


class SymBool:
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    def __and__(self, o):
        return mkbool(z3.And(self.t, tobool(o)))
    __rand__ = __and__

    def __or__(self, o):
        return mkbool(z3.Or(self.t, tobool(o)))
    __ror__ = __or__

    def __invert__(self):
        return mkbool(z3.Not(self.t))

    def __bool__(self):
        raise Unsupported("truth value of a symbolic bool used natively")

    def __repr__(self):
        return f"SymBool({self.t})"


class SymNum:
    """a symbolic number; sort Int = Python int, sort Real = Python float/Decimal"""
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    @property
    def isint(self):
        return z3.is_int(self.t)

    def __add__(self, o): return num_add(self, o)
    def __radd__(self, o): return num_add(o, self)
    def __sub__(self, o): return num_sub(self, o)
    def __rsub__(self, o): return num_sub(o, self)
    def __mul__(self, o): return num_mul(self, o)
    def __rmul__(self, o): return num_mul(o, self)
    def __truediv__(self, o): return num_div(self, o)
    def __rtruediv__(self, o): return num_div(o, self)
    def __neg__(self): return num_sub(0, self)
    def __pos__(self): return self

    def __pow__(self, n):
        if not isinstance(n, int) or n < 0 or n > 8:
            raise Unsupported("power")
        r = 1
        for _ in range(n):
            r = num_mul(r, self)
        return r

    def __lt__(self, o): return num_cmp("<", self, o)
    def __le__(self, o): return num_cmp("<=", self, o)
    def __gt__(self, o): return num_cmp(">", self, o)
    def __ge__(self, o): return num_cmp(">=", self, o)
    def __eq__(self, o): return num_cmp("==", self, o)
    def __ne__(self, o): return num_cmp("!=", self, o)
    __hash__ = None

    def __bool__(self):
        raise Unsupported("truth value of a symbolic number used natively")

    def __repr__(self):
        return f"SymNum({self.t})"


class SStr:
    """opaque symbolic string; parts is a tuple of concrete strs and atoms"""
    __slots__ = ("parts",)

    def __init__(self, parts):
        self.parts = tuple(parts)

    def key(self):
        return self.parts

    def __repr__(self):
        return f"SStr({self.parts})"


class StrAtom:
    __slots__ = ("name", "t", "num", "hexnum", "js")

    def __init__(self, name, t):
        self.name = name
        self.t = t
        self.num = None         # the number this string is the decimal representation of
        self.hexnum = None      # ... hexadecimal representation
        self.js = None          # ... JSON

    def __repr__(self):
        return self.name


def is_num(v):
    return isinstance(v, (int, Fraction, SymNum, float)) or isinstance(v, SymBool)


def is_conc_num(v):
    return isinstance(v, (int, Fraction)) or isinstance(v, float)


def fval(v):
    """concrete number -> z3 numeral"""
    if isinstance(v, bool):
        return z3.IntVal(int(v))
    if isinstance(v, int):
        return z3.IntVal(v)
    if isinstance(v, Fraction):
        return z3.RealVal(v)
    if isinstance(v, float) and v == v and v not in (float("inf"), float("-inf")):
        return z3.RealVal(Fraction(repr(v)))
    raise Unsupported(f"numeral {v!r}")


def term(v):
    if isinstance(v, SymNum):
        return v.t
    if isinstance(v, SymBool):
        return z3.If(v.t, z3.IntVal(1), z3.IntVal(0))
    return fval(v)


def tobool(v):
    if isinstance(v, SymBool):
        return v.t
    if isinstance(v, bool):
        return z3.BoolVal(v)
    if z3.is_bool(v):
        return v
    raise Unsupported(f"not a bool {v!r}")


def mkbool(t):
    if z3.is_true(t):
        return True
    if z3.is_false(t):
        return False
    return SymBool(t)


def mknum(t):
    if z3.is_int_value(t):
        return t.as_long()
    if z3.is_rational_value(t):
        return Fraction(t.numerator_as_long(), t.denominator_as_long())
    return SymNum(t)


def coerce(a, b):
    ta, tb = term(a), term(b)
    if z3.is_int(ta) and z3.is_real(tb):
        ta = toreal(ta)
    elif z3.is_real(ta) and z3.is_int(tb):
        tb = toreal(tb)
    return ta, tb


def toreal(t):
    if z3.is_real(t):
        return t
    if z3.is_int_value(t):
        return z3.RealVal(t.as_long())
    return z3.ToReal(t)


def _isz(v):
    return not isinstance(v, (SymNum, SymBool)) and not isinstance(v, float) and v == 0


def _isone(v):
    return not isinstance(v, (SymNum, SymBool)) and not isinstance(v, float) and v == 1


def _kindreal(v):
    return isinstance(v, Fraction) or (isinstance(v, SymNum) and not v.isint)


def as_real(v):
    """convert to float-kind"""
    if isinstance(v, SymNum):
        return SymNum(toreal(v.t))
    if isinstance(v, SymBool):
        return SymNum(toreal(term(v)))
    v = nf(v)
    if isinstance(v, float):
        return v
    return Fraction(v)


def _conc(a):
    return not isinstance(a, (SymNum, SymBool))


_INF = float("inf")


def nf(v):
    """a finite python float stands for its decimal numeral; only inf and nan stay floats"""
    if isinstance(v, float) and v == v and v != _INF and v != -_INF:
        return Fraction(repr(v))
    return v


def num_add(a, b):
    a, b = nf(a), nf(b)
    if _conc(a) and _conc(b):
        return a + b
    if _isz(a) and not (_kindreal(a) and not _kindreal(b)):
        return b if not isinstance(b, SymBool) else SymNum(term(b))
    if _isz(b) and not (_kindreal(b) and not _kindreal(a)):
        return a if not isinstance(a, SymBool) else SymNum(term(a))
    ta, tb = coerce(a, b)
    return mknum(z3.simplify(ta + tb))


def num_sub(a, b):
    a, b = nf(a), nf(b)
    if _conc(a) and _conc(b):
        return a - b
    ta, tb = coerce(a, b)
    return mknum(z3.simplify(ta - tb))


def num_mul(a, b):
    a, b = nf(a), nf(b)
    if _conc(a) and _conc(b):
        return a * b
    ta, tb = coerce(a, b)
    if _isone(a):
        return mknum(tb)
    if _isone(b):
        return mknum(ta)
    return mknum(z3.simplify(ta * tb))


def num_div(a, b):
    a, b = nf(a), nf(b)
    if _conc(a) and _conc(b):
        return Fraction(a) / Fraction(b)
    ta, tb = toreal(term(a)), toreal(term(b))
    if _isone(b):
        return mknum(ta)
    if not _conc(b) is False and _conc(b):
        return mknum(z3.simplify(ta / tb))
    return mknum(ta / tb)


def num_cmp(op, a, b):
    if not (is_num(a) and is_num(b)):
        if op == "==":
            return False
        if op == "!=":
            return True
        raise Unsupported(f"comparison of {a!r} and {b!r}")
    a, b = nf(a), nf(b)
    for v, o, flip in ((a, b, False), (b, a, True)):
        if isinstance(v, float):
            if v != v:
                return op == "!="
            # +-inf against a finite (symbolic) number
            x, y = (v, 0.0) if not flip else (0.0, v)
            if isinstance(o, float):
                x, y = (v, o) if not flip else (o, v)
            return {"<": x < y, "<=": x <= y, ">": x > y, ">=": x >= y, "==": x == y, "!=": x != y}[op]
    if _conc(a) and _conc(b):
        return {"<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b, "==": a == b, "!=": a != b}[op]
    ta, tb = coerce(a, b)
    t = {"<": lambda: ta < tb, "<=": lambda: ta <= tb, ">": lambda: ta > tb,
         ">=": lambda: ta >= tb, "==": lambda: ta == tb, "!=": lambda: ta != tb}[op]()
    return mkbool(z3.simplify(t))


_SERIAL = [0]


def serial():
    _SERIAL[0] += 1
    return _SERIAL[0]


class PList:
    """mutable python list"""
    __slots__ = ("items", "serial")

    def __init__(self, items=()):
        self.items = list(items)
        self.serial = serial()

    def __repr__(self):
        return f"PList({self.items})"


class PIter(PList):
    """an iterator over values known already (generator expression, zip, map ...): what is taken from it is gone"""
    __slots__ = ()


class PSet:
    __slots__ = ("items", "serial")

    def __init__(self, items=()):
        self.items = list(items)
        self.serial = serial()


class PDict:
    """dict with (mostly) concrete keys, insertion ordered"""
    __slots__ = ("keys", "vals", "serial", "cls", "f")     # cls, f : class and attributes of an instance of a user class derived from dict

    def __init__(self, pairs=()):
        self.serial = serial()
        self.cls = None
        self.f = None
        self.keys = []
        self.vals = []
        for k, v in pairs:
            self.keys.append(k)
            self.vals.append(v)

    def __repr__(self):
        return f"PDict({list(zip(self.keys, self.vals))})"


class GhostList:
    """a list of unknown length abstracted to sums of the fields of what was appended"""
    __slots__ = ("length", "sums", "on_append", "cls", "serial")

    def __init__(self, length, sums, cls=None):
        self.serial = serial()
        self.length = length
        self.sums = dict(sums)
        self.cls = cls

    def __repr__(self):
        return f"GhostList({self.length},{self.sums})"


class SymList:
    """immutable list of symbolic length; make(i) gives an arbitrary element"""
    def __init__(self, length, make, name="lst", as_tuple=False):
        self.length = length
        self.make = make
        self.name = name
        self.cache = {}

    def elem(self, i):
        k = i if isinstance(i, int) else ("z", i.t.get_id())
        if k not in self.cache:
            self.cache[k] = (self.make(i), i)
        return self.cache[k][0]


class FilterList:
    """[f(x) for x in src if pred(x)] over a SymList, kept lazily"""
    def __init__(self, src, conds_expr):
        self.src = src
        self.step = conds_expr        # callable: elem -> (included?, value)


class Obj:
    __slots__ = ("cls", "f", "ghost", "serial")

    def __init__(self, cls, f=None):
        self.serial = serial()
        self.cls = cls
        self.f = dict(f or {})
        self.ghost = None

    def __repr__(self):
        return f"<{self.cls.name} {self.f}>"


class Opaque:
    """value from an external library the verifier knows nothing about"""
    __slots__ = ("name",)

    def __init__(self, name="?"):
        self.name = name

    def __repr__(self):
        return f"Opaque({self.name})"


class ExcVal:
    def __init__(self, cls, args=()):
        self.cls = cls
        self.args = tuple(args)

    def __repr__(self):
        n = self.cls.__name__ if isinstance(self.cls, type) else self.cls.name
        return f"{n}({', '.join(map(str, self.args))[:160]})"


class Poison:
    """variable whose value after an abstracted loop is not tracked"""
    def __init__(self, name):
        self.name = name


class PyRaise(Exception):
    def __init__(self, exc):
        self.exc = exc
        super().__init__(repr(exc))


class Counter:
    """itertools.count"""
    __slots__ = ("value", "step")

    def __init__(self, value=0, step=1):
        self.value, self.step = value, step
