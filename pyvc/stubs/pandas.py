"""The contract the verifier assumes for pandas: a Series is a list of values with a list of labels; element operations are those of Python numbers, and two
series combine label by label (equal labels, or labels 0..n-1 of different length: the rest is missing).  Interpreted by the verification engine in place of pandas."""
from _pyvc import unsupported
import math

nan_value = math.nan


class Timestamp:
    def __init__(self, *a, **kw):
        unsupported("Timestamp")


def _isnan(x):
    return x is None or (not isinstance(x, (str, bool, list, tuple, dict)) and hasattr(x, "__float__") and math.isnan(x))


class _ILoc:
    def __init__(self, s):
        self.s = s

    def __getitem__(self, k):
        if isinstance(k, slice):
            return Series(self.s.values_[k], index=self.s.index.labels[k])
        return self.s.values_[k]


class Index:
    name = None

    def __init__(self, labels):
        self.labels = labels

    def __iter__(self):
        return iter(self.labels)

    def __len__(self):
        return len(self.labels)

    def __getitem__(self, k):
        if isinstance(k, Series):
            return Index([a for a, m in zip(self.labels, k.values_) if m])
        if isinstance(k, slice):
            return Index(self.labels[k])
        return self.labels[k]


class Series:
    def __init__(self, data=None, index=None, name=None):
        if isinstance(data, Series):
            if index is None:
                index = data.index
            data = data.values_
        self.values_ = list(data)
        if index is None:
            index = list(range(len(self.values_)))
        elif isinstance(index, Index):
            index = index.labels
        self.index = Index(list(index))
        self.name = name
        if len(self.index.labels) != len(self.values_):
            raise ValueError("Length of values does not match length of index")

    @property
    def iloc(self):
        return _ILoc(self)

    def tolist(self):
        return list(self.values_)

    def __len__(self):
        return len(self.values_)

    def __iter__(self):
        return iter(self.values_)

    def __getitem__(self, k):
        if isinstance(k, slice):
            return Series(self.values_[k], index=self.index.labels[k])
        if isinstance(k, Series):
            keep = [m for m in k.values_]
            return Series([v for v, m in zip(self.values_, keep) if m], index=[a for a, m in zip(self.index.labels, keep) if m])
        for a, v in zip(self.index.labels, self.values_):
            if a == k:
                return v
        if isinstance(k, int):
            return self.values_[k]
        raise KeyError(k)

    def _op(self, o, f):
        if isinstance(o, Series):
            if o.index.labels == self.index.labels:
                return Series([nan_value if _isnan(a) or _isnan(b) else f(a, b) for a, b in zip(self.values_, o.values_)], index=self.index.labels)
            n, m = len(self.values_), len(o.values_)
            if self.index.labels == list(range(n)) and o.index.labels == list(range(m)):
                k = min(n, m)
                return Series([nan_value if _isnan(a) or _isnan(b) else f(a, b) for a, b in zip(self.values_, o.values_)] + [nan_value] * (max(n, m) - k))
            unsupported("series with different labels")
        if hasattr(o, "__iter__"):
            o = list(o)
            if len(o) != len(self.values_):
                raise ValueError("operands could not be broadcast together")
            return Series([nan_value if _isnan(a) or _isnan(b) else f(a, b) for a, b in zip(self.values_, o)], index=self.index.labels)
        return Series([nan_value if _isnan(a) else f(a, o) for a in self.values_], index=self.index.labels)

    def __neg__(self):
        return self._op(0, lambda a, b: -a)

    def __add__(self, o):
        return self._op(o, lambda a, b: a + b)

    def __radd__(self, o):
        return self._op(o, lambda a, b: b + a)

    def __sub__(self, o):
        return self._op(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._op(o, lambda a, b: b - a)

    def __mul__(self, o):
        return self._op(o, lambda a, b: a * b)

    def __rmul__(self, o):
        return self._op(o, lambda a, b: b * a)

    def __truediv__(self, o):
        return self._op(o, lambda a, b: a / b)

    def __rtruediv__(self, o):
        return self._op(o, lambda a, b: b / a)

    def __gt__(self, o):
        return self._op(o, lambda a, b: a > b)

    def __lt__(self, o):
        return self._op(o, lambda a, b: a < b)

    def __ge__(self, o):
        return self._op(o, lambda a, b: a >= b)

    def __le__(self, o):
        return self._op(o, lambda a, b: a <= b)

    def fillna(self, v):
        return Series([v if _isnan(x) else x for x in self.values_], index=self.index.labels)

    def dot(self, o):
        if not len(o) == len(self):
            raise ValueError("matrices are not aligned")
        t = 0
        for a, b in zip(self.values_, list(o)):
            t = t + a * b
        return t


    def isin(self, vs):
        vs = list(vs)
        return Series([x in vs for x in self.values_], index=self.index.labels)

    def items(self):
        return list(zip(self.index.labels, self.values_))

    def to_dict(self):
        return dict(zip(self.index.labels, self.values_))

    @property
    def values(self):
        return list(self.values_)


class _DFILoc:
    def __init__(self, d):
        self.d = d

    def __getitem__(self, k):
        if isinstance(k, slice):
            return DataFrame({c: v[k] for c, v in self.d.cols.items()}, index=self.d.index.labels[k])
        if not isinstance(k, int):
            unsupported("DataFrame.iloc")
        return Series([v[k] for v in self.d.cols.values()], index=list(self.d.cols), name=self.d.index.labels[k])


class _DFLoc:
    def __init__(self, d):
        self.d = d

    def __getitem__(self, k):
        labels = self.d.index.labels
        if isinstance(k, tuple) and len(k) == 2 and not (k in labels):
            r, col = k
            rows = [i for i, a in enumerate(labels) if a == r]
            if len(rows) != 1:
                unsupported("DataFrame.loc")
            return self.d.cols[col][rows[0]]
        rows = [i for i, a in enumerate(labels) if a == k]
        if not rows:
            raise KeyError(k)
        if len(rows) > 1:
            return DataFrame({c: [v[i] for i in rows] for c, v in self.d.cols.items()}, index=[labels[i] for i in rows])
        return Series([v[rows[0]] for v in self.d.cols.values()], index=list(self.d.cols), name=k)


class DataFrame:
    """named columns of equal length with a list of row labels"""
    def __init__(self, data=None, index=None, columns=None):
        if isinstance(index, Index):
            index = index.labels
        if isinstance(columns, Index):
            columns = columns.labels
        labels = None
        if data is None:
            data = {}
        if isinstance(data, DataFrame):
            labels = data.index.labels
            data = data.cols
        if isinstance(data, dict):
            cols = {}
            n = None
            for k, v in data.items():
                if isinstance(v, Series):
                    if labels is not None and labels != v.index.labels:
                        unsupported("DataFrame of series with different labels")
                    labels = v.index.labels
                    v = v.values_
                if isinstance(v, (list, tuple)):
                    v = list(v)
                    if n is not None and len(v) != n:
                        raise ValueError("All arrays must be of the same length")
                    n = len(v)
                cols[k] = v
            if n is None and cols:
                if index is None:
                    raise ValueError("If using all scalar values, you must pass an index")
                n = len(index)
            self.cols = {k: v if isinstance(v, list) else [v] * n for k, v in cols.items()}
            if columns is not None:
                self.cols = {k: self.cols[k] for k in columns}
            n = n or 0
        else:
            rows = list(data)
            n = len(rows)
            if rows and isinstance(rows[0], dict):
                names = list(columns) if columns is not None else []
                for r in rows:
                    for k in r:
                        if columns is None and k not in names:
                            names.append(k)
                self.cols = {k: [r[k] if k in r else nan_value for r in rows] for k in names}
            elif rows and isinstance(rows[0], Series):
                names = []
                for r in rows:
                    for k in r.index.labels:
                        if k not in names:
                            names.append(k)
                ds = [r.to_dict() for r in rows]
                self.cols = {k: [d[k] if k in d else nan_value for d in ds] for k in names}
                labels = [r.name if r.name is not None else i for i, r in enumerate(rows)]
            elif rows and hasattr(rows[0], "__iter__"):
                rows = [list(r) for r in rows]
                m = len(rows[0])
                names = list(columns) if columns is not None else list(range(m))
                if [r for r in rows if len(r) != len(names)]:
                    raise ValueError("columns passed, passed data had other columns")
                self.cols = {k: [r[i] for r in rows] for i, k in enumerate(names)}
            else:
                names = list(columns) if columns is not None else [0]
                if rows and len(names) != 1:
                    raise ValueError("Shape of passed values")
                self.cols = {k: rows for k in names}
        if index is None:
            index = labels if labels is not None else list(range(n))
        if self.cols and len(index) != n:
            raise ValueError("Length of values does not match length of index")
        self.index = Index(list(index))
        self.index.name = None

    @classmethod
    def from_dict(cls, data):
        return cls(data)

    @classmethod
    def from_records(cls, data):
        return cls(data)

    @property
    def columns(self):
        return Index(list(self.cols))

    @property
    def shape(self):
        return (len(self), len(self.cols))

    @property
    def iloc(self):
        return _DFILoc(self)

    @property
    def loc(self):
        return _DFLoc(self)

    @property
    def T(self):
        n = len(self)
        return DataFrame({self.index.labels[i]: [v[i] for v in self.cols.values()] for i in range(n)}, index=list(self.cols))

    @property
    def values(self):
        return [[v[i] for v in self.cols.values()] for i in range(len(self))]

    def __len__(self):
        return len(self.index.labels)

    def __iter__(self):
        return iter(list(self.cols))

    def __contains__(self, k):
        return k in self.cols

    def __getitem__(self, k):
        if isinstance(k, Series):
            keep = list(k.values_)
            return DataFrame({c: [x for x, m in zip(v, keep) if m] for c, v in self.cols.items()},
                             index=[a for a, m in zip(self.index.labels, keep) if m])
        if isinstance(k, list):
            return DataFrame({c: list(self.cols[c]) for c in k}, index=self.index.labels)
        if k not in self.cols:
            raise KeyError(k)
        return Series(self.cols[k], index=self.index.labels, name=k)

    def __setitem__(self, k, v):
        if isinstance(v, Series):
            v = v.values_
        self.cols[k] = list(v) if isinstance(v, (list, tuple)) else [v] * len(self)

    def set_index(self, k):
        if isinstance(k, list):
            labels = list(zip(*[self.cols[c] for c in k]))
            ks = k
        else:
            labels = list(self.cols[k])
            ks = [k]
        r = DataFrame({c: list(v) for c, v in self.cols.items() if c not in ks}, index=labels)
        r.index.name = k
        return r

    def reset_index(self, drop=False):
        d = {}
        if not drop:
            d[self.index.name if self.index.name is not None else "index"] = list(self.index.labels)
        for c, v in self.cols.items():
            d[c] = list(v)
        return DataFrame(d)

    def rename(self, columns):
        return DataFrame({columns[c] if c in columns else c: list(v) for c, v in self.cols.items()}, index=self.index.labels)

    def fillna(self, v):
        return DataFrame({c: [v if _isnan(x) else x for x in w] for c, w in self.cols.items()}, index=self.index.labels)

    def to_dict(self, orient="dict"):
        if orient == "records":
            return [{c: v[i] for c, v in self.cols.items()} for i in range(len(self))]
        if orient != "dict":
            unsupported("to_dict")
        return {c: dict(zip(self.index.labels, v)) for c, v in self.cols.items()}

    def iterrows(self):
        return [(self.index.labels[i], self.iloc[i]) for i in range(len(self))]


def pivot_table(df, values, index, aggfunc):
    for k in list(values) + list(index):
        if k not in df.cols:
            raise KeyError(k)
    groups = {}
    for i in range(len(df)):
        groups.setdefault(tuple([df.cols[k][i] for k in index]), []).append(i)
    keys = sorted(groups)
    return DataFrame({v: [aggfunc([df.cols[v][i] for i in groups[k]]) for k in keys] for v in values}, index=keys)


def concat(objs, axis=0):
    objs = list(objs)
    if not objs:
        raise ValueError("No objects to concatenate")
    if isinstance(objs[0], DataFrame):
        if axis == 1:
            cols = {}
            for d in objs:
                if d.index.labels != objs[0].index.labels:
                    unsupported("concat of columns with different labels")
                for k, v in d.cols.items():
                    cols[k] = list(v)
            return DataFrame(cols, index=objs[0].index.labels)
        names = []
        for d in objs:
            for k in d.cols:
                if k not in names:
                    names.append(k)
        ix = []
        cols = {k: [] for k in names}
        for d in objs:
            ix = ix + d.index.labels
            for k in names:
                cols[k] = cols[k] + (list(d.cols[k]) if k in d.cols else [nan_value] * len(d))
        return DataFrame(cols, index=ix)
    vs = []
    ix = []
    for s in objs:
        if not isinstance(s, Series):
            unsupported("concat")
        vs = vs + s.values_
        ix = ix + s.index.labels
    return Series(vs, index=ix)
