"""Contract registry shared by the prover (CPython 3.12) and the concrete runner (PyPy 3.9)."""

HARNESSES = []          # list of Harness
SUMMARIES = {}          # qualname -> FnContract


class Harness:
    def __init__(self, prop, name, fn, functions, kind, samples, weight, budget, unroll, summaries, doc, max_paths, split=0):
        self.prop, self.name, self.fn = prop, name, fn
        self.functions = functions      # functions under contract (reported)
        self.kind = kind                # "proved" | "bounded" (concrete only) | "proved-bounded" (symbolic, bounded shape)
        self.samples = samples
        self.weight = weight
        self.budget = budget
        self.unroll = unroll
        self.summaries = summaries
        self.doc = doc
        self.max_paths = max_paths
        self.split = split              # divide the paths (not the obligations) among the processes, by their first `split` decisions

    @property
    def id(self):
        return f"{self.prop}.{self.name}"


def contract(prop, functions=(), kind="proved", samples=300, weight=1, budget=30, unroll=0, summaries=(), max_paths=600, name=None, split=0):
    """register a contract / lemma harness.  prop may be a list of property ids."""
    props = [prop] if isinstance(prop, str) else list(prop)

    def deco(fn):
        for p in props:
            HARNESSES.append(Harness(p, name or fn.__name__, fn, tuple(functions), kind, samples, weight, budget, unroll,
                                     tuple(summaries), (fn.__doc__ or "").strip(), max_paths, split))
        return fn
    return deco


class FnContract:
    """a function contract used modularly: callers see pre/post only"""
    def __init__(self, qual, params, result, pre, post):
        self.qual, self.params, self.result, self.pre, self.post = qual, params, result, pre, post


def fn_contract(qual, params, result, pre, post):
    SUMMARIES[qual] = FnContract(qual, params, result, pre, post)


class Skip(Exception):
    """concrete input outside the precondition"""


class Out:
    """outcome of a call: value or exception"""
    def __init__(self, value=None, exc=None, names=()):
        self.value = value
        self.exc = exc
        self.names = names

    @property
    def ok(self):
        return self.exc is None

    def raised(self, *names):
        return self.exc is not None and (not names or any(n in self.names for n in names))
