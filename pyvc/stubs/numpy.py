"""The contract the verifier assumes for numpy: vectors (and small matrices) of exact numbers.

Interpreted by the verification engine in place of numpy.  Element operations are those of Python numbers; two vectors must have the same length, a number is
combined with every element.  Division by zero raises here (numpy answers inf or nan).  Random draws and the linear solvers return arbitrary numbers."""
from _pyvc import fresh_real, fresh_bool, assume, unsupported
import math


float64 = float
float32 = float
int64 = int
nan = float("nan")
pi = math.pi


class LinAlgError(Exception):
    pass


class ndarray:
    def __init__(self, items):
        self.items = items

    @property
    def shape(self):
        if len(self.items) and isinstance(self.items[0], list):
            return (len(self.items), len(self.items[0]))
        return (len(self.items),)

    @property
    def size(self):
        n = 1
        for k in self.shape:
            n = n * k
        return n

    @property
    def T(self):
        return ndarray([list(c) for c in zip(*self.items)])

    def _row(self, v):
        return ndarray(v) if isinstance(v, list) else v

    def __len__(self):
        return len(self.items)

    def __iter__(self):
        return iter([self._row(v) for v in self.items])

    def __getitem__(self, k):
        if isinstance(k, slice):
            return ndarray(self.items[k])
        if isinstance(k, tuple):
            r, c = k
            if isinstance(r, slice):
                return ndarray([row[c] for row in self.items[r]])
            return self.items[r][c]
        if isinstance(k, (ndarray, list)):
            unsupported("fancy indexing")
        return self._row(self.items[k])

    def __setitem__(self, k, v):
        if isinstance(k, tuple):
            r, c = k
            if isinstance(r, slice):
                rows = self.items[r]
                vs = _aslist(v)
                if len(rows) != len(vs):
                    raise ValueError("could not broadcast")
                for row, x in zip(rows, vs):
                    row[c] = x
                return
            self.items[r][c] = v
            return
        if isinstance(k, slice):
            unsupported("slice assignment")
        self.items[k] = v

    def tolist(self):
        return list(self.items)

    def sum(self):
        return sum(self)

    def copy(self):
        return ndarray(list(self.items))

    def reshape(self, *a):
        unsupported("reshape")

    def __neg__(self):
        return _map1(lambda x: -x, self)

    def __abs__(self):
        return _map1(abs, self)

    def __add__(self, o):
        if _isseries(o):
            return o.__radd__(self)
        return _map2(lambda a, b: a + b, self, o)

    def __radd__(self, o):
        return _map2(lambda a, b: b + a, self, o)

    def __sub__(self, o):
        if _isseries(o):
            return o.__rsub__(self)
        return _map2(lambda a, b: a - b, self, o)

    def __rsub__(self, o):
        return _map2(lambda a, b: b - a, self, o)

    def __mul__(self, o):
        if _isseries(o):
            return o.__rmul__(self)
        return _map2(lambda a, b: a * b, self, o)

    def __rmul__(self, o):
        return _map2(lambda a, b: b * a, self, o)

    def __truediv__(self, o):
        if _isseries(o):
            return o.__rtruediv__(self)
        return _map2(lambda a, b: a / b, self, o)

    def __rtruediv__(self, o):
        return _map2(lambda a, b: b / a, self, o)

    def __pow__(self, o):
        return _map2(lambda a, b: a ** b, self, o)

    def __gt__(self, o):
        return _map2(lambda a, b: a > b, self, o)

    def __lt__(self, o):
        return _map2(lambda a, b: a < b, self, o)

    def __ge__(self, o):
        return _map2(lambda a, b: a >= b, self, o)

    def __le__(self, o):
        return _map2(lambda a, b: a <= b, self, o)

    def __eq__(self, o):
        return _map2(lambda a, b: a == b, self, o)

    def __ne__(self, o):
        return _map2(lambda a, b: a != b, self, o)

    def __bool__(self):
        if len(self.items) == 1:
            return bool(self.items[0])
        raise ValueError("The truth value of an array with more than one element is ambiguous. Use a.any() or a.all()")


def _isseries(o):
    return hasattr(o, "iloc")


def _isvec(o):
    return isinstance(o, (ndarray, list, tuple)) or _isseries(o)


def _aslist(o):
    return list(o)


def _map1(f, v):
    return ndarray([_map1(f, ndarray(x)).items if isinstance(x, list) else f(x) for x in v.items])


def _map2(f, v, o):
    if _isvec(o):
        o = o.items if isinstance(o, ndarray) else list(o)
        if len(o) == 1 and len(v.items) != 1:
            return ndarray([f(a, o[0]) for a in v.items])
        if len(v.items) == 1 and len(o) != 1:
            return ndarray([f(v.items[0], b) for b in o])
        if len(o) != len(v.items):
            raise ValueError("operands could not be broadcast together")
        return ndarray([_map2(f, ndarray(a), b if isinstance(b, (ndarray, list, tuple)) else [b] * len(a)).items if isinstance(a, list) else f(a, b)
                        for a, b in zip(v.items, o)])
    return ndarray([_map2(f, ndarray(a), o).items if isinstance(a, list) else f(a, o) for a in v.items])


def array(v, dtype=None):
    if isinstance(v, ndarray):
        return ndarray([list(x) if isinstance(x, list) else x for x in v.items])
    if not _isvec(v):
        unsupported("0-dimensional array")
    items = [_aslist(x) if _isvec(x) else x for x in v]
    if dtype is not None and dtype in (float,):
        if any(x is None for x in items):
            raise TypeError("float() argument must be a string or a number, not 'NoneType'")
    return ndarray(items)


asarray = array


def zeros(n):
    if isinstance(n, tuple):
        return ndarray([[0.0 for _ in range(n[1])] for _ in range(n[0])])
    return ndarray([0.0 for _ in range(n)])


def append(a, v):
    return ndarray(list(a) + list(v))


def insert(a, ix, v):
    items = list(a)
    return ndarray(items[:ix] + [v] + items[ix:])


def cumsum(a):
    out = []
    t = 0
    for x in a:
        t = t + x
        out.append(t)
    return ndarray(out)


def cumprod(a):
    out = []
    t = 1
    for x in a:
        t = t * x
        out.append(t)
    return ndarray(out)


def diff(a):
    items = list(a)
    return ndarray([b - a for a, b in zip(items, items[1:])])


def linspace(start, stop, num=50):
    if num == 1:
        return ndarray([start])
    step = (stop - start) / (num - 1)
    return ndarray([start + k * step for k in range(num - 1)] + [stop])


def dot(a, b):
    a, b = list(a), list(b)
    if len(a) != len(b):
        raise ValueError("shapes not aligned")
    t = 0
    for x, y in zip(a, b):
        t = t + x * y
    return t


def mean(v):
    v = list(v)
    if not v:
        unsupported("mean of nothing")
    return sum(v) / len(v)


def average(v, weights=None):
    v = list(v)
    if weights is None:
        return mean(v)
    weights = list(weights)
    if len(v) != len(weights):
        raise ValueError("Axis must be specified when shapes of a and weights differ.")
    return sum(x * w for x, w in zip(v, weights)) / sum(weights)


def min(v):
    t = None
    for x in v:
        if t is None or x < t:
            t = x
    return t


def max(v):
    t = None
    for x in v:
        if t is None or x > t:
            t = x
    return t


def sum(v):
    t = 0
    for x in v:
        t = t + x
    return t


def maximum(a, b):
    if not _isvec(a):
        a, b = b, a
    return _map2(lambda x, y: x if x >= y else y, array(a), b)


def minimum(a, b):
    if not _isvec(a):
        a, b = b, a
    return _map2(lambda x, y: x if x <= y else y, array(a), b)


def exp(v):
    return _map1(math.exp, v) if isinstance(v, ndarray) else math.exp(v)


def log(v):
    if _isseries(v):
        v = array(v)
    return _map1(math.log, v) if isinstance(v, ndarray) else math.log(v)


def log10(v):
    return _map1(math.log10, v) if isinstance(v, ndarray) else math.log10(v)


def sqrt(v):
    return _map1(math.sqrt, v) if isinstance(v, ndarray) else math.sqrt(v)


def concatenate(vs, axis=0):
    if axis == 0:
        return ndarray([x for v in vs for x in v.items])
    unsupported("concatenate")


class linalg:
    LinAlgError = LinAlgError

    @staticmethod
    def solve(a, b):
        if fresh_bool("singular"):
            raise LinAlgError("Singular matrix")
        return ndarray([fresh_real("solve") for _ in range(len(b))])

    @staticmethod
    def lstsq(a, b, rcond=None):
        return (ndarray([fresh_real("lstsq") for _ in range(len(b))]), None, None, None)

    @staticmethod
    def norm(v):
        t = 0
        for x in v:
            t = t + x * x
        return math.sqrt(t)


class _Rng:
    def normal(self, loc=0, scale=1, size=None):
        return ndarray([fresh_real("normal") for _ in range(size)])

    def lognormal(self, mean=0, sigma=1, size=None):
        out = []
        if isinstance(sigma, (int, float)) and sigma == 0:
            return ndarray([exp(mean) for _ in range(size)])
        for _ in range(size):
            x = fresh_real("lognormal")
            assume(x > 0)
            out.append(x)
        return ndarray(out)


class random:
    @staticmethod
    def default_rng(seed=None):
        return _Rng()
