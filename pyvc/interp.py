"""Symbolic interpreter over the real Python AST of /repo (the VC generator).

Every branch on a symbolic condition forks; a path is explored by re-executing
from the start with a recorded decision prefix, so ordinary mutable Python
objects can represent the heap.  Nothing of the analysed source is rewritten:
modules are parsed from /repo on every run.
"""
import ast
import os
from fractions import Fraction
import z3
from .values import *

REPO = os.environ.get("PYVC_REPO", "/repo")
ROOTS = [REPO, os.path.join(REPO, "benchmark"), os.path.join(os.path.dirname(os.path.abspath(__file__)), "stubs")]

# ----------------------------------------------------------------------------
class PathAbort(Exception):
    """path infeasible / finished early"""


class OtherShard(PathAbort):
    """the path is explored by another process"""


class _Return(Exception):
    def __init__(self, v):
        self.v = v


class _Break(Exception):
    pass


class _Continue(Exception):
    pass


_TV = {}


def term_vars(t):
    """names of the uninterpreted symbols of a term (cached by ast id)"""
    k = t.get_id()
    r = _TV.get(k)
    if r is not None:
        return r[1]
    out = set()
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if i in _TV:
            out |= _TV[i][1]
            continue
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out.add(x.decl().name())
        st.extend(x.children())
    r = frozenset(out)
    _TV[k] = (t, r)
    return r


_NUMS = {}


def int_numerals(t):
    """the integer constants occurring in a term (cached by ast id)"""
    k = t.get_id()
    r = _NUMS.get(k)
    if r is not None:
        return r[1]
    out, seen, st = set(), set(), [t]
    while st:
        x = st.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_int_value(x):
            out.add(x.as_long())
        elif z3.is_rational_value(x) and x.denominator_as_long() == 1:
            out.add(x.numerator_as_long())
        st.extend(x.children())
    _NUMS[k] = (t, out)
    return out


class Path:
    FEAS_MS = 400

    def __init__(self, prefix=(), facts=(), cache=None, counter=None):
        self.prefix = [d for d, _ in prefix]
        self.psig = [g for _, g in prefix]
        self.dec = []
        self.sig = []
        self.facts = []
        self.cache = dict(cache) if cache else {}
        self.counter = dict(counter) if counter else {}
        self.pending = []
        self.solver = z3.Solver()
        self.solver.set("timeout", self.FEAS_MS)
        self.solver.set("arith.nl.grobner", False)
        self.model = None
        self.fvars = []
        self.inputs = []        # (name, SymNum|...) declared by harness
        self.split = None
        self.marks, self.offsets = set(), set()
        for f in facts:
            self.add(f)

    def fresh_name(self, base):
        n = self.counter.get(base, 0)
        self.counter[base] = n + 1
        return base if n == 0 else f"{base}!{n}"

    def add(self, t):
        if z3.is_true(t):
            return
        self.facts.append(t)
        self.fvars.append(term_vars(t))
        self.solver.add(t)
        if self.model is not None and not z3.is_true(self.model.eval(t, model_completion=True)):
            self.model = None

    def landmark(self, base, v, m):
        """v = 2^base (base >= 0) compared with the constant 2^m"""
        self.add(z3.Implies(base >= 0, (base >= m) == (v >= 2 ** m)))
        self.add(z3.Implies(base == m, v == 2 ** m))

    def note_numerals(self, t):
        """the integer constants of a formula are the places where powers of two with symbolic exponent are compared"""
        bases = [val for k, val in self.cache.items() if isinstance(k, tuple) and k[0] == "pow2"]
        if not bases:
            return
        new = set()
        for n in int_numerals(t):
            n = abs(n)
            if n <= 512:
                new.update(n + d + o for o in [0] + [s * x for x in self.offsets for s in (1, -1)] for d in (-1, 0, 1))
            else:
                new.update((n.bit_length() - 1, n.bit_length()))
        for m in sorted(new - self.marks):
            if 0 <= m <= 1024:
                self.marks.add(m)
                for v, base in bases:
                    self.landmark(base, v, m)

    def refuted(self, t):
        """cheap check: t contradicts the facts that speak only about t's own variables"""
        vs = term_vars(t)
        fs = [f for f, v in zip(self.facts, self.fvars) if v <= vs]
        if not fs or len(vs) > 6:
            return False
        s = z3.Solver()
        s.set("timeout", 100)
        s.set("arith.nl.grobner", False)
        s.add(*fs, t)
        return s.check() == z3.unsat

    def feasible(self, t):
        if self.model is not None and z3.is_true(self.model.eval(t, model_completion=True)):
            return True
        self.solver.push()
        self.solver.add(t)
        r = self.solver.check()
        if r == z3.sat and self.model is None:
            self.model = self.solver.model()
        self.solver.pop()
        return r != z3.unsat

    def decided(self):
        if self.split and len(self.dec) == self.split[0]:
            from .symctx import owner
            if owner(self.dec, self.split[0], self.split[2]) != self.split[1]:
                raise OtherShard()

    def choose(self, n, feas=None):
        """n-ary nondeterministic choice"""
        i = len(self.dec)
        sig = ("choose", n)
        if i < len(self.prefix):
            k = self.prefix[i]
            self.check_sig(i, sig)
        else:
            k = 0
            for alt in range(1, n):
                self.pending.append(list(zip(self.dec + [alt], self.sig + [sig])))
        self.dec.append(k)
        self.sig.append(sig)
        self.decided()
        return k

    def check_sig(self, i, sig):
        """a re-run prefix must meet the same decisions, otherwise the enumeration of paths would not be exhaustive"""
        if self.psig[i] != sig:
            raise Unsupported("path replay diverged")

    def branch(self, t):
        t = z3.simplify(t)
        if z3.is_true(t):
            return True
        if z3.is_false(t):
            return False
        self.note_numerals(t)
        i = len(self.dec)
        sig = term_vars(t)
        if i < len(self.prefix):
            k = self.prefix[i]
            self.check_sig(i, sig)
        else:
            nt = z3.Not(t)
            if self.refuted(t):
                ft, ff = False, True
            elif self.refuted(nt):
                ft, ff = True, False
            else:
                ft = self.feasible(t)
                ff = self.feasible(nt) if ft else True
            if ft and ff:
                k = 1
                self.pending.append(list(zip(self.dec + [0], self.sig + [sig])))
            else:
                k = 1 if ft else 0
        self.dec.append(k)
        self.sig.append(sig)
        self.decided()
        self.add(t if k else z3.Not(t))
        return bool(k)


# ----------------------------------------------------------------------------
_AST_CACHE = {}


def module_file(dotted):
    rel = dotted.replace(".", "/")
    for root in ROOTS:
        for cand in (os.path.join(root, rel + ".py"), os.path.join(root, rel, "__init__.py")):
            if os.path.isfile(cand):
                return cand
    return None


class ModuleSrc:
    def __init__(self, dotted, path):
        self.dotted = dotted
        self.path = path
        self.is_pkg = path.endswith("__init__.py")
        with open(path) as fh:
            self.tree = ast.parse(fh.read(), path)
        self.bind = {}
        self.older = {}         # class name -> its earlier definitions in the same module
        self._scan(self.tree.body)

    def _scan(self, body):
        for st in body:
            if isinstance(st, (ast.FunctionDef, ast.ClassDef)):
                if isinstance(self.bind.get(st.name), ast.ClassDef):
                    self.older.setdefault(st.name, []).append(self.bind[st.name])
                self.bind[st.name] = st
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    for n in ast.walk(t):
                        if isinstance(n, ast.Name):
                            self.bind[n.id] = (st, t)
            elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name) and st.value is not None:
                self.bind[st.target.id] = (st, st.target)
            elif isinstance(st, ast.Import):
                for a in st.names:
                    self.bind[(a.asname or a.name).split(".")[0]] = ("import", a.name if a.asname else a.name.split(".")[0])
            elif isinstance(st, ast.ImportFrom):
                for a in st.names:
                    self.bind[a.asname or a.name] = ("from", st.module, st.level, a.name)
                    if a.name == "*":
                        self.bind.setdefault("*", []).append((st.module, st.level)) if False else None
            elif isinstance(st, (ast.If,)):
                self._scan(st.body)
            elif isinstance(st, ast.Try):
                self._scan(st.body)


def load_module(dotted):
    if dotted not in _AST_CACHE:
        p = module_file(dotted)
        _AST_CACHE[dotted] = ModuleSrc(dotted, p) if p else None
    return _AST_CACHE[dotted]


class ModuleRef:
    def __init__(self, interp, src):
        self.interp = interp
        self.src = src
        self.cache = {}

    def resolve_from(self, module, level):
        if level == 0:
            return module
        parts = self.src.dotted.split(".")
        if not self.src.is_pkg:
            parts = parts[:-1]
        if level > 1:
            parts = parts[: -(level - 1)]
        return ".".join(parts + ([module] if module else []))

    def get(self, name):
        if name in self.cache:
            return self.cache[name]
        b = self.src.bind.get(name)
        if b is None:
            raise KeyError(name)
        return self._make(name, b, name)

    def class_before(self, name, lineno):
        """the class a base-class name denotes at a given line, when the module defines the name more than once"""
        prev = [n for n in self.src.older.get(name, []) + [self.src.bind[name]] if n.lineno < lineno]
        n = prev[-1]
        key = (name, n.lineno) if n is not self.src.bind[name] else name
        return self.cache[key] if key in self.cache else self._make(name, n, key)

    def _make(self, name, b, key):
        I = self.interp
        if isinstance(b, ast.FunctionDef):
            v = I.make_func(b, Env(None, self), None)
            v = I.decorate(b, v, Env(None, self))
        elif isinstance(b, ast.ClassDef):
            v = ClassInfo(I, b, self, Env(None, self))
        elif b[0] == "import":
            v = I.import_module(b[1])
        elif b[0] == "from":
            dotted = self.resolve_from(b[1], b[2])
            v = I.import_from(dotted, b[3])
        else:
            st, tgt = b
            env = Env(None, self)
            val = I.eval(st.value, env)
            if isinstance(tgt, ast.Name):
                v = val
            else:
                I.assign(tgt, val, env)
                for k, x in env.vars.items():
                    self.cache[k] = x
                v = env.vars[name]
        self.cache[key] = v
        return v


class Env:
    __slots__ = ("vars", "parent", "module", "func", "yields", "defcls", "selfv")

    def __init__(self, parent, module):
        self.vars = {}
        self.parent = parent
        self.module = module
        self.func = parent.func if parent else None
        self.defcls = parent.defcls if parent else None
        self.selfv = parent.selfv if parent else None
        self.yields = None

    def lookup(self, name):
        e = self
        while e is not None:
            if name in e.vars:
                return e.vars[name]
            e = e.parent
        raise KeyError(name)


class Func:
    __slots__ = ("node", "env", "module", "defcls", "name", "kind", "qual", "defaults", "kwdefaults", "island")

    def __init__(self, node, env, module, defcls, name, qual):
        self.node = node
        self.env = env
        self.module = module
        self.defcls = defcls
        self.name = name
        self.qual = qual
        self.kind = "func"
        self.island = isinstance(node, ast.Lambda)


class Bound:
    __slots__ = ("func", "selfv")

    def __init__(self, func, selfv):
        self.func = func
        self.selfv = selfv


class Builtin:
    __slots__ = ("name", "fn")

    def __init__(self, name, fn):
        self.name = name
        self.fn = fn

    def __repr__(self):
        return f"Builtin({self.name})"


class Prop:
    __slots__ = ("fget", "fset")

    def __init__(self, fget, fset=None):
        self.fget = fget
        self.fset = fset


class StaticM:
    __slots__ = ("f",)

    def __init__(self, f):
        self.f = f


class ClassM:
    __slots__ = ("f",)

    def __init__(self, f):
        self.f = f


class FieldSpec:
    def __init__(self, name, default, factory, init, initvar, compare=True):
        self.name, self.default, self.factory, self.init, self.initvar, self.compare = name, default, factory, init, initvar, compare


_MISSING = object()


class ClassInfo:
    def __init__(self, interp, node, module, env, benv=None):
        self.interp = interp
        self.node = node
        self.name = node.name
        self.module = module
        self.env = env
        self.is_dc = False
        self.frozen = False
        self.dc_eq = True
        self.bases = []
        for b in node.bases:
            if isinstance(b, ast.Name) and b.id in module.src.older and isinstance(module.src.bind[b.id], ast.ClassDef):
                self.bases.append(module.class_before(b.id, node.lineno))
                continue
            self.bases.append(interp.eval(b, benv or env))
        for d in node.decorator_list:
            nm = d.func if isinstance(d, ast.Call) else d
            s = nm.id if isinstance(nm, ast.Name) else nm.attr if isinstance(nm, ast.Attribute) else ""
            if s.endswith("dataclass"):
                self.is_dc = True
                if isinstance(d, ast.Call):
                    for k in d.keywords:
                        if k.arg == "frozen":
                            self.frozen = k.value.value
                        if k.arg == "eq":
                            self.dc_eq = k.value.value
            elif isinstance(d, ast.Name) and self._dc_alias(d.id):
                pass
            else:
                raise Unsupported(f"class decorator {s}")
        self.attrs = {}
        self.own_fields = []
        self._populate()

    def _dc_alias(self, name):
        """a module-level name bound (under try/except) to dataclass(frozen=True [, kw_only=True]); the running python 3.9 has no kw_only"""
        calls = [n.value for n in ast.walk(self.module.src.tree) if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name)
                 and n.targets[0].id == name]
        if not calls or not all(isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == "dataclass" for v in calls):
            return False
        kws = [{k.arg: k.value.value for k in v.keywords} for v in calls]
        kws = [k for k in kws if "kw_only" not in k] or kws
        self.is_dc = True
        self.frozen = kws[-1].get("frozen", False)
        self.dc_eq = kws[-1].get("eq", True)
        return True

    def _populate(self):
        I = self.interp
        env = Env(self.env, self.module)
        env.vars = self.attrs
        env.defcls = self
        anns = []
        for st in self.node.body:
            if isinstance(st, ast.FunctionDef):
                fenv = Env(self.env, self.module)   # methods do not see class scope
                f = I.make_func(st, fenv, self)
                self.attrs[st.name] = I.decorate(st, f, env)
            elif isinstance(st, ast.ClassDef):
                ci = ClassInfo(I, st, self.module, self.env, env)   # its body and methods do not see this class scope either
                self.attrs[st.name] = ci
            elif isinstance(st, ast.AnnAssign):
                if isinstance(st.target, ast.Name):
                    if st.value is not None:
                        self.attrs[st.target.id] = I.eval(st.value, env)
                    anns.append(st)
            elif isinstance(st, ast.Assign):
                val = I.eval(st.value, env)
                for t in st.targets:
                    I.assign(t, val, env)
            elif isinstance(st, (ast.Expr, ast.Pass)):
                pass
            elif isinstance(st, ast.If) or isinstance(st, ast.Try) or isinstance(st, ast.For):
                I.exec_block([st], env)
            else:
                raise Unsupported(f"class body {type(st).__name__}")
        if self.is_dc:
            seen = {}
            for st in anns:
                name = st.target.id
                ann = ast.unparse(st.annotation)
                if "ClassVar" in ann:
                    continue
                seen[name] = (ann, st)
            for name, (ann, st) in seen.items():
                default = self.attrs.get(name, _MISSING)
                initvar = "InitVar" in ann
                fs = FieldSpec(name, default, None, True, initvar)
                if isinstance(default, FieldDef):
                    fs.default = default.default
                    fs.factory = default.factory
                    fs.init = default.init
                    fs.compare = default.compare
                    if default.default is _MISSING:
                        self.attrs.pop(name, None)
                    else:
                        self.attrs[name] = default.default
                self.own_fields.append(fs)

    @property
    def mro(self):
        out = [self]
        for b in self.bases:
            if isinstance(b, ClassInfo):
                for x in b.mro:
                    if x not in out:
                        out.append(x)
        return out

    def pybase(self):
        for c in self.mro:
            for b in c.bases:
                if isinstance(b, type) and issubclass(b, BaseException):
                    return b
        return None

    def isdict(self):
        return any(b is dict for c in self.mro for b in c.bases)

    def lookup(self, name, start=None):
        m = self.mro
        if start is not None:
            m = m[m.index(start) + 1:]
        for c in m:
            if name in c.attrs:
                return c.attrs[name]
        return _MISSING

    def fields(self):
        d = {}
        for c in reversed(self.mro):
            for f in c.own_fields:
                d[f.name] = f
        return list(d.values())

    def has_dc(self):
        return any(c.is_dc for c in self.mro)

    def issub(self, other):
        if isinstance(other, ClassInfo):
            return other.node is self.node or any(c.node is other.node for c in self.mro)
        if other is object:
            return True
        pb = self.pybase()
        return pb is not None and isinstance(other, type) and issubclass(pb, other)

    def __repr__(self):
        return f"<class {self.name}>"


class FieldDef:
    def __init__(self, default=_MISSING, factory=None, init=True, compare=True):
        self.default, self.factory, self.init, self.compare = default, factory, init, compare


class SuperProxy:
    def __init__(self, cls, selfv):
        self.cls, self.selfv = cls, selfv


def is_subexc(cls, h):
    """is exception class `cls` (python type or ClassInfo) a subclass of h?"""
    if isinstance(cls, ClassInfo):
        return cls.issub(h)
    if isinstance(h, type):
        return issubclass(cls, h)
    return False


EXC = {n: getattr(__builtins__ if not isinstance(__builtins__, dict) else None, n, None) for n in ()}
import builtins as _bi
EXC_NAMES = [n for n in dir(_bi) if isinstance(getattr(_bi, n), type) and issubclass(getattr(_bi, n), BaseException)]


class FrozenInstanceError(AttributeError):
    pass


from .builtins_model import install_builtins  # noqa: E402


class Interp:
    MAX_UNROLL = 400

    def __init__(self, path, obls, cfg=None):
        self.path = path
        self.obls = obls
        self.modules = {}
        self.summaries = (cfg or {}).get("summaries", {})
        self.loop_templates = []
        self.append_hook = None
        self.depth = 0
        self.steps = 0
        self.used_summaries = set()
        self.executed = set()
        self.unroll_symbolic = 0
        self.builtins = {}
        self.loop_invs_used = []
        self.loop_guard = None
        self.loop_ok = set()
        self.houdini = (cfg or {}).get("houdini", {})
        install_builtins(self)

    # -- modules ---------------------------------------------------------
    def module(self, dotted):
        if dotted not in self.modules:
            src = load_module(dotted)
            if src is None:
                return None
            self.modules[dotted] = ModuleRef(self, src)
        return self.modules[dotted]

    def import_module(self, dotted):
        if dotted in self.extmods:
            return self.extmods[dotted]
        m = self.module(dotted)
        if m is not None:
            return m
        return Opaque(dotted)

    def import_from(self, dotted, name):
        if dotted in self.extmods:
            v = self.extmods[dotted].get(name)
            if v is not None:
                return v
            return Opaque(f"{dotted}.{name}")
        m = self.module(dotted)
        if m is not None:
            if name in m.src.bind:
                return m.get(name)
            sub = self.module(dotted + "." + name)
            if sub is not None:
                return sub
            # star imports in the package
            for st in m.src.tree.body:
                if isinstance(st, ast.ImportFrom) and st.names[0].name == "*":
                    try:
                        return self.import_from(m.resolve_from(st.module, st.level), name)
                    except KeyError:
                        pass
            raise KeyError(name)
        return Opaque(f"{dotted}.{name}")

    def resolve(self, ref):
        """'mod.dotted:Name.attr' -> value"""
        mod, _, rest = ref.partition(":")
        m = self.module(mod)
        if m is None:
            raise Unsupported(f"module {mod} not found")
        parts = rest.split(".")
        try:
            v = m.get(parts[0])
        except KeyError:
            raise Unsupported(f"{ref} not found in the source")
        for p in parts[1:]:
            v = self.getattr(v, p)
        return v

    # -- functions -------------------------------------------------------
    def make_func(self, node, env, defcls):
        name = getattr(node, "name", "<lambda>")
        mod = env.module.src.dotted
        qual = f"{mod}:{defcls.name + '.' if defcls else ''}{name}"
        f = Func(node, env, env.module, defcls, name, qual)
        a = node.args
        f.defaults = [self.eval(d, env) if defcls is None else self.eval_default(d, env, defcls) for d in a.defaults]
        f.kwdefaults = [None if d is None else (self.eval(d, env) if defcls is None else self.eval_default(d, env, defcls)) for d in a.kw_defaults]
        return f

    def eval_default(self, d, env, defcls):
        e = Env(env, env.module)
        e.vars = defcls.attrs if hasattr(defcls, "attrs") else {}
        return self.eval(d, e)

    def decorate(self, node, f, env):
        v = f
        for d in reversed(node.decorator_list):
            if isinstance(d, ast.Name) and d.id == "property":
                v = Prop(v)
            elif isinstance(d, ast.Name) and d.id == "classmethod":
                v = ClassM(v)
            elif isinstance(d, ast.Name) and d.id == "staticmethod":
                v = StaticM(v)
            elif isinstance(d, ast.Attribute) and d.attr == "setter":
                base = env.lookup(d.value.id)
                v = Prop(base.fget, v)
            elif isinstance(d, ast.Name) and d.id == "abstractmethod":
                pass
            else:
                v = self.call(self.eval(d, env), [v])
        return v

    def raise_(self, cls, *args):
        raise PyRaise(ExcVal(cls, args))

    def call(self, f, args=(), kwargs=None):
        kwargs = kwargs or {}
        args = list(args)
        if isinstance(f, Bound):
            return self.call(f.func, [f.selfv] + args, kwargs)
        if isinstance(f, Func):
            s = self.summaries.get(f.qual)
            if s is not None:
                self.used_summaries.add(f.qual)
                return s(self, f, args, kwargs)
            return self.call_func(f, args, kwargs)
        if isinstance(f, Builtin):
            return f.fn(*args, **kwargs)
        if isinstance(f, ClassInfo):
            return self.instantiate(f, args, kwargs)
        if isinstance(f, type) and issubclass(f, BaseException):
            return ExcVal(f, args)
        if isinstance(f, Obj):
            m = f.cls.lookup("__call__")
            if m is not _MISSING:
                return self.call(Bound(m, f), args, kwargs)
        if isinstance(f, Opaque):
            return Opaque(f.name + "()")
        if f in self.type_calls:
            return self.type_calls[f](*args, **kwargs)
        if f is None or is_num(f) or isinstance(f, str):
            self.raise_(TypeError, "not callable")
        raise Unsupported(f"call of {f!r}")

    def bind_args(self, f, args, kwargs):
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        out = {}
        args = list(args)
        kwargs = dict(kwargs)
        for i, n in enumerate(names):
            if i < len(args):
                out[n] = args[i]
                if n in kwargs:
                    self.raise_(TypeError, "multiple values")
            elif n in kwargs:
                out[n] = kwargs.pop(n)
            else:
                j = i - (len(names) - len(f.defaults))
                if j < 0:
                    self.raise_(TypeError, f"missing argument {n}")
                out[n] = f.defaults[j]
        rest = args[len(names):]
        if a.vararg:
            out[a.vararg.arg] = tuple(rest)
        elif rest:
            self.raise_(TypeError, "too many positional arguments")
        for x, d in zip(a.kwonlyargs, f.kwdefaults):
            if x.arg in kwargs:
                out[x.arg] = kwargs.pop(x.arg)
            elif a.kw_defaults[a.kwonlyargs.index(x)] is not None:
                out[x.arg] = d
            else:
                self.raise_(TypeError, f"missing keyword {x.arg}")
        if a.kwarg:
            out[a.kwarg.arg] = PDict(list(kwargs.items()))
        elif kwargs:
            self.raise_(TypeError, f"unexpected keyword {list(kwargs)[0]}")
        return out

    def call_func(self, f, args, kwargs):
        self.depth += 1
        if self.depth > 60:
            raise Unsupported("recursion depth")
        try:
            env = Env(f.env, f.module)
            env.func = f
            env.vars.update(self.bind_args(f, args, kwargs))
            env.defcls = f.defcls
            if f.island:
                env.defcls = f.env.defcls
                env.selfv = f.env.selfv
                return self.eval(f.node.body, env)
            if f.defcls is None:
                env.defcls = f.env.defcls
                env.selfv = f.env.selfv
            elif args:
                env.selfv = args[0]
            self.executed.add(f.qual)
            isgen = getattr(f.node, "_isgen", None)
            if isgen is None:
                isgen = f.node._isgen = any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in self._walk_own(f.node))
            if isgen:
                env.yields = []
            try:
                self.exec_block(f.node.body, env)
            except _Return as r:
                if isgen:
                    return PIter(env.yields)
                return r.v
            return PIter(env.yields) if isgen else None
        finally:
            self.depth -= 1

    @staticmethod
    def _walk_own(fn):
        st = list(fn.body)
        while st:
            n = st.pop()
            yield n
            if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                continue
            st.extend(ast.iter_child_nodes(n))

    def instantiate(self, cls, args, kwargs):
        if cls.pybase() is not None:
            return ExcVal(cls, args)
        if cls.isdict():
            o = PDict()
            o.cls, o.f = cls, {}
            init = cls.lookup("__init__")
            self.call(init if init is not _MISSING else self.super_attr(o, "__init__"), ([o] if init is not _MISSING else []) + list(args), kwargs)
            return o
        o = Obj(cls)
        init = cls.lookup("__init__")
        if init is not _MISSING:
            self.call(init, [o] + list(args), kwargs)
            return o
        if cls.has_dc():
            self.dc_init(o, cls, args, kwargs)
            return o
        if args or kwargs:
            self.raise_(TypeError, "takes no arguments")
        return o

    def dc_init(self, o, cls, args, kwargs):
        fields = cls.fields()
        initf = [f for f in fields if f.init]
        kwargs = dict(kwargs)
        if len(args) > len(initf):
            self.raise_(TypeError, "too many arguments")
        vals = {}
        for f, v in zip(initf, args):
            vals[f.name] = v
        for k, v in kwargs.items():
            if k not in [f.name for f in initf] or k in vals:
                self.raise_(TypeError, f"unexpected argument {k}")
            vals[k] = v
        post = []
        for f in fields:
            if f.name in vals:
                v = vals[f.name]
            elif f.factory is not None:
                v = self.call(f.factory)
            elif f.default is not _MISSING:
                v = f.default
            elif not f.init:
                continue
            else:
                self.raise_(TypeError, f"missing argument {f.name}")
            if f.initvar:
                post.append(v)
            else:
                if cls.frozen:
                    o.f[f.name] = v
                else:
                    self.setattr(o, f.name, v)
        pi = cls.lookup("__post_init__")
        if pi is not _MISSING:
            self.call(pi, [o] + post)

    # -- attributes ------------------------------------------------------
    def bindattr(self, v, o, cls):
        if isinstance(v, Func):
            return Bound(v, o) if o is not None else v
        if isinstance(v, ClassM):
            return Bound(v.f, cls)
        if isinstance(v, StaticM):
            return v.f
        if isinstance(v, Prop):
            if o is None:
                return v
            return self.call(v.fget, [o])
        return v

    def getattr(self, o, name, default=_MISSING):
        try:
            return self._getattr(o, name)
        except PyRaise as e:
            if default is not _MISSING and is_subexc(e.exc.cls, AttributeError):
                return default
            raise

    def _getattr(self, o, name):
        if isinstance(o, Obj):
            if name == "__class__":
                return o.cls
            if name == "__dict__":
                return PDict(list(o.f.items()))
            ga = o.cls.lookup("__getattribute__")
            cv = o.cls.lookup(name)
            if isinstance(cv, Prop):
                return self.call(cv.fget, [o])
            if name in o.f:
                return o.f[name]
            if cv is not _MISSING:
                return self.bindattr(cv, o, o.cls)
            g = o.cls.lookup("__getattr__")
            if g is not _MISSING:
                return self.call(Bound(g, o), [name])
            if name == "__init__" or name == "__setattr__":
                return self.super_attr(o, name)
            self.raise_(AttributeError, f"'{o.cls.name}' object has no attribute '{name}'")
        if isinstance(o, ClassInfo):
            if name == "__name__":
                return o.name
            v = o.lookup(name)
            if v is _MISSING:
                self.raise_(AttributeError, f"class {o.name} has no attribute {name}")
            return self.bindattr(v, None, o)
        if isinstance(o, ModuleRef):
            try:
                return o.get(name)
            except KeyError:
                sub = self.module(o.src.dotted + "." + name)
                if sub is not None:
                    return sub
                raise Unsupported(f"module attribute {name}")
        if isinstance(o, SuperProxy):
            return self.super_attr2(o, name)
        if isinstance(o, PDict) and o.cls is not None:
            if name == "__class__":
                return o.cls
            if name == "__dict__":
                return o.f if isinstance(o.f, PDict) else PDict(list(o.f.items()))
            cv = o.cls.lookup(name)
            if isinstance(cv, Prop):
                return self.call(cv.fget, [o])
            if isinstance(o.f, PDict):
                i = self.dict_find(o.f, name)
                if i is not None:
                    return o.f.vals[i]
            elif name in o.f:
                return o.f[name]
            if cv is not _MISSING:
                return self.bindattr(cv, o, o.cls)
            g = o.cls.lookup("__getattr__")
            if g is not _MISSING:
                return self.call(Bound(g, o), [name])
            return self.builtin_method(o, name)
        if isinstance(o, dict):          # external module model
            if name in o:
                return o[name]
            return Opaque(name)
        if isinstance(o, Opaque):
            return Opaque(o.name + "." + name)
        if isinstance(o, ExcVal):
            if name == "args":
                return o.args
            self.raise_(AttributeError, name)
        return self.builtin_method(o, name)

    def super_attr2(self, sp, name):
        selfv = sp.selfv
        inst = isinstance(selfv, (Obj, PDict))
        cls = selfv.cls if inst else selfv
        v = cls.lookup(name, start=sp.cls)
        if v is not _MISSING:
            return self.bindattr(v, selfv if inst else None, cls)
        return self.super_attr(selfv, name)

    def super_attr(self, o, name):
        if isinstance(o, PDict):
            if name == "__init__":
                def dinit(*a, **k):
                    src = self.call(dict, list(a), k)
                    for kk, vv in zip(src.keys, src.vals):
                        self.dict_set(o, kk, vv)
                return Builtin("dict.__init__", dinit)
            if name == "__getitem__":
                return Builtin("dict.__getitem__", lambda k: self.dict_getitem(o, k))
            if name == "__setitem__":
                return Builtin("dict.__setitem__", lambda k, v: self.dict_set(o, k, v))
            if name == "__setattr__":
                def da(k, v):
                    self.dict_setattr(o, k, v)
                return Builtin("object.__setattr__", da)
            return self.builtin_method(o, name)
        if name == "__setattr__":
            def sa(k, v):
                o.f[k] = v
            return Builtin("object.__setattr__", sa)
        if name == "__init__":
            def init(*a, **k):
                return None
            # dataclass-generated __init__
            return Builtin("object.__init__", init)
        if name == "__post_init__":
            self.raise_(AttributeError, name)
        self.raise_(AttributeError, name)

    def dict_getitem(self, o, k):
        i = self.dict_find(o, k)
        if i is None:
            self.raise_(KeyError, k)
        return o.vals[i]

    def dict_setattr(self, o, name, v):
        """attribute of an instance of a dict subclass; `self.__dict__ = self` makes the attributes the items"""
        if name == "__dict__":
            o.f = v
        elif isinstance(o.f, PDict):
            self.dict_set(o.f, name, v)
        else:
            o.f[name] = v

    def guard(self, o):
        """inside an abstracted loop only objects created by the iteration may be written"""
        if self.loop_guard is not None and getattr(o, "serial", 0) <= self.loop_guard and id(o) not in self.loop_ok:
            raise Unsupported("abstracted loop writes to an object that outlives the iteration")

    def setattr(self, o, name, v):
        if isinstance(o, Obj):
            if self.loop_guard is not None:
                self.guard(o)
            cv = o.cls.lookup(name)
            sa = o.cls.lookup("__setattr__")
            if sa is not _MISSING:
                return self.call(Bound(sa, o), [name, v])
            if o.cls.frozen:
                self.raise_(FrozenInstanceError, name)
            if isinstance(cv, Prop):
                if cv.fset is None:
                    self.raise_(AttributeError, f"can't set attribute {name}")
                self.call(cv.fset, [o, v])
                return
            o.f[name] = v
            return
        if isinstance(o, PDict) and o.cls is not None:
            if self.loop_guard is not None:
                self.guard(o)
            sa = o.cls.lookup("__setattr__")
            if sa is not _MISSING:
                return self.call(Bound(sa, o), [name, v])
            return self.dict_setattr(o, name, v)
        if isinstance(o, ClassInfo):
            o.attrs[name] = v
            return
        if isinstance(o, Opaque):
            return
        raise Unsupported(f"setattr on {o!r}")

    # -- truth, comparison ----------------------------------------------
    def branch(self, b):
        if isinstance(b, bool):
            return b
        if isinstance(b, SymBool):
            return self.path.branch(b.t)
        raise Unsupported("branch")

    def truth(self, v):
        if v is None:
            return False
        if isinstance(v, (bool, SymBool)):
            return self.branch(v)
        if isinstance(v, (int, Fraction, float)):
            return bool(v)
        if isinstance(v, SymNum):
            return self.branch(num_cmp("!=", v, 0))
        if isinstance(v, str):
            return bool(v)
        if isinstance(v, SStr):
            if any(isinstance(p, str) and p for p in v.parts):
                return True
            return True   # symbolic names are non-empty (assumption)
        if isinstance(v, PIter):
            return True
        if isinstance(v, (PList, PSet)):
            return bool(v.items)
        if isinstance(v, tuple):
            return bool(v)
        if isinstance(v, PDict):
            return bool(v.keys)
        if isinstance(v, (GhostList, SymList)):
            return self.truth(v.length)
        if isinstance(v, Obj):
            m = v.cls.lookup("__bool__")
            if m is not _MISSING:
                return self.truth(self.call(Bound(m, v)))
            m = v.cls.lookup("__len__")
            if m is not _MISSING:
                return self.truth(self.call(Bound(m, v)))
            return True
        if isinstance(v, (Func, Bound, Builtin, ClassInfo, ExcVal, type)):
            return True
        raise Unsupported(f"truth of {v!r}")

    def not_(self, v):
        if isinstance(v, SymBool):
            return mkbool(z3.Not(v.t))
        return not self.truth(v)

    def str_eq(self, a, b):
        pa = (a,) if isinstance(a, str) else a.parts
        pb = (b,) if isinstance(b, str) else b.parts
        if pa == pb:
            return True
        if isinstance(a, str) and isinstance(b, str):
            return a == b
        if len(pa) == len(pb) and all(isinstance(x, str) == isinstance(y, str) for x, y in zip(pa, pb)) \
                and all(x == y for x, y in zip(pa, pb) if isinstance(x, str)):
            return mkbool(z3.And([x.t == y.t for x, y in zip(pa, pb) if not isinstance(x, str)]))
        if len(pa) == 1 and len(pb) == 1:
            # opaque atom against a concrete string
            at, co = (pa[0], pb[0]) if not isinstance(pa[0], str) else (pb[0], pa[0])
            return mkbool(at.t == self.str_const(co))
        ka = z3.Int("strcat_" + repr(pa))
        kb = z3.Int("strcat_" + repr(pb))
        return mkbool(ka == kb)

    def str_const(self, s):
        tbl = self.path.cache.setdefault("strconst", {})
        if s not in tbl:
            tbl[s] = -1 - len(tbl)
        return z3.IntVal(tbl[s])

    def eq(self, a, b):
        if a is b:
            return True
        if isinstance(a, Obj):
            m = a.cls.lookup("__eq__")
            if m is not _MISSING:
                r = self.call(Bound(m, a), [b])
                return r
            if a.cls.has_dc() and a.cls.dc_eq and isinstance(b, Obj) and b.cls is a.cls:
                r = True
                for f in a.cls.fields():
                    if f.initvar or not f.compare:
                        continue
                    e = self.eq(self.getattr(a, f.name), self.getattr(b, f.name))
                    r = self.and_(r, e)
                return r
            if isinstance(b, Obj):
                m = b.cls.lookup("__eq__")
                if m is not _MISSING:
                    return self.call(Bound(m, b), [a])
            return False
        if isinstance(b, Obj):
            return self.eq(b, a)
        if a is None or b is None:
            return False
        if is_num(a) and is_num(b):
            if isinstance(a, SymBool) and isinstance(b, (bool, SymBool)):
                return mkbool(a.t == tobool(b))
            if isinstance(b, SymBool) and isinstance(a, bool):
                return mkbool(b.t == tobool(a))
            return num_cmp("==", a, b)
        if isinstance(a, (str, SStr)) and isinstance(b, (str, SStr)):
            return self.str_eq(a, b)
        if isinstance(a, tuple) and isinstance(b, tuple) or isinstance(a, PList) and isinstance(b, PList):
            la = a if isinstance(a, tuple) else a.items
            lb = b if isinstance(b, tuple) else b.items
            if len(la) != len(lb):
                return False
            r = True
            for x, y in zip(la, lb):
                r = self.and_(r, self.eq(x, y))
            return r
        if isinstance(a, PSet) and isinstance(b, PSet):
            if not all(isinstance(x, (str, int, tuple)) for x in a.items + b.items):
                raise Unsupported("set eq")
            return set(a.items) == set(b.items)
        if isinstance(a, PDict) and isinstance(b, PDict):
            if len(a.keys) != len(b.keys):
                return False
            r = True
            for k, v in zip(a.keys, a.vals):
                i = self.dict_find(b, k)
                if i is None:
                    return False
                r = self.and_(r, self.eq(v, b.vals[i]))
            return r
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            raise Unsupported(f"comparison with external value {a!r} {b!r}")
        if isinstance(a, (Bound,)) and isinstance(b, Bound):
            return a.func is b.func and a.selfv is b.selfv
        if isinstance(a, ExcVal) or isinstance(b, ExcVal):
            return a is b
        return False

    def and_(self, a, b):
        if a is True:
            return b
        if a is False:
            return False
        return mkbool(z3.And(tobool(a), tobool(b)))

    def dict_find(self, d, k):
        for i, kk in enumerate(d.keys):
            if isinstance(k, (str, int, tuple, bool)) and isinstance(kk, (str, int, tuple, bool)):
                if type(k) == type(kk) and not isinstance(k, tuple) and k == kk:
                    return i
                if not isinstance(k, tuple) and not isinstance(kk, tuple):
                    if k == kk:
                        return i
                    continue
            e = self.eq(kk, k)
            if self.branch(e) if not isinstance(e, bool) else e:
                return i
        return None

    def dict_set(self, d, k, v):
        if self.loop_guard is not None:
            self.guard(d)
        i = self.dict_find(d, k)
        if i is None:
            d.keys.append(k)
            d.vals.append(v)
        else:
            d.vals[i] = v

    def compare(self, op, a, b):
        t = type(op)
        if t is ast.Is:
            return self.is_(a, b)
        if t is ast.IsNot:
            return not self.is_(a, b)
        if t is ast.Eq:
            return self.eq(a, b)
        if t is ast.NotEq:
            if isinstance(a, Obj):
                m = a.cls.lookup("__ne__")
                if m is not _MISSING:
                    return self.call(Bound(m, a), [b])
            r = self.eq(a, b)
            return self.not_(r)
        if t is ast.In:
            return self.contains(b, a)
        if t is ast.NotIn:
            return self.not_(self.contains(b, a))
        sym = {ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">="}[t]
        if is_num(a) and is_num(b):
            return num_cmp(sym, a, b)
        dn = {"<": "__lt__", "<=": "__le__", ">": "__gt__", ">=": "__ge__"}
        rn = {"<": "__gt__", "<=": "__ge__", ">": "__lt__", ">=": "__le__"}
        if isinstance(a, Obj):
            m = a.cls.lookup(dn[sym])
            if m is not _MISSING:
                return self.call(Bound(m, a), [b])
        if isinstance(b, Obj):
            m = b.cls.lookup(rn[sym])
            if m is not _MISSING:
                return self.call(Bound(m, b), [a])
        if isinstance(a, str) and isinstance(b, str):
            return {"<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b}[sym]
        if isinstance(a, (str, SStr)) and isinstance(b, (str, SStr)):
            # opaque total order on strings
            pa = a.parts if isinstance(a, SStr) else (a,)
            pb = b.parts if isinstance(b, SStr) else (b,)
            if len(pa) == 1 and len(pb) == 1:
                f = lambda p: z3.Int("ord_" + (p if isinstance(p, str) else p.name))
                x, y = f(pa[0]), f(pb[0])
                e = self.str_eq(a, b)
                self.path.add(z3.simplify((x == y) == tobool(e)))
                return mkbool({"<": x < y, "<=": x <= y, ">": x > y, ">=": x >= y}[sym])
        if isinstance(a, tuple) and isinstance(b, tuple):
            # lexicographic
            for x, y in zip(a, b):
                if self.truth(self.eq(x, y)):
                    continue
                return self.compare({"<": ast.Lt, "<=": ast.Lt, ">": ast.Gt, ">=": ast.Gt}[sym](), x, y)
            return {"<": len(a) < len(b), "<=": len(a) <= len(b), ">": len(a) > len(b), ">=": len(a) >= len(b)}[sym]
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            raise Unsupported("comparison with external value")
        if a is None or b is None or (is_num(a) != is_num(b)):
            self.raise_(TypeError, "ordering not supported")
        raise Unsupported(f"compare {a!r} {sym} {b!r}")

    def is_(self, a, b):
        if a is None or b is None:
            return a is b
        if isinstance(a, (bool, SymBool)) and isinstance(b, (bool, SymBool)):
            return mkbool(tobool(a) == tobool(b))
        if isinstance(b, bool) or isinstance(a, bool):
            return False
        if isinstance(a, ClassInfo) and isinstance(b, ClassInfo):
            return a.node is b.node
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            raise Unsupported("identity of external value")
        if isinstance(a, (str, int)) and isinstance(b, (str, int)):
            return a == b and type(a) == type(b)
        return a is b

    def contains(self, cont, x):
        if isinstance(cont, str) and isinstance(x, str):
            return x in cont
        if isinstance(cont, (SStr,)) and isinstance(x, str):
            if any(isinstance(p, str) and x in p for p in cont.parts):
                return True
            return False
        if isinstance(cont, PDict):
            return self.dict_find(cont, x) is not None
        if isinstance(cont, Obj):
            m = cont.cls.lookup("__contains__")
            if m is not _MISSING:
                return self.call(Bound(m, cont), [x])
        if isinstance(cont, Opaque):
            raise Unsupported("membership in external value")
        r = False
        ts = []
        for y in self.iterate(cont):
            e = self.eq(y, x)
            if e is True:
                return True
            if e is False:
                continue
            ts.append(tobool(e))
        if not ts:
            return False
        return mkbool(z3.Or(ts))

    # -- arithmetic ------------------------------------------------------
    DUN = {ast.Add: "add", ast.Sub: "sub", ast.Mult: "mul", ast.Div: "truediv", ast.FloorDiv: "floordiv",
           ast.Mod: "mod", ast.Pow: "pow", ast.LShift: "lshift", ast.RShift: "rshift",
           ast.BitAnd: "and", ast.BitOr: "or", ast.BitXor: "xor", ast.MatMult: "matmul"}

    def binop(self, op, a, b, inplace=False):
        t = op if isinstance(op, type) else type(op)
        if isinstance(a, Obj) or isinstance(b, Obj):
            n = self.DUN[t]
            if isinstance(a, Obj):
                if inplace:
                    m = a.cls.lookup(f"__i{n}__")
                    if m is not _MISSING:
                        return self.call(Bound(m, a), [b])
                m = a.cls.lookup(f"__{n}__")
                if m is not _MISSING:
                    return self.call(Bound(m, a), [b])
            if isinstance(b, Obj):
                m = b.cls.lookup(f"__r{n}__")
                if m is not _MISSING:
                    return self.call(Bound(m, b), [a])
            self.raise_(TypeError, f"unsupported operand for {n}")
        if is_num(a) and is_num(b):
            return self.numop(t, a, b)
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            return Opaque("op")
        if t is ast.Add:
            if isinstance(a, tuple) and isinstance(b, tuple):
                return a + b
            if isinstance(a, PIter) or isinstance(b, PIter):
                self.raise_(TypeError, "unsupported operand: iterator")
            if isinstance(a, PList) and isinstance(b, PList):
                if inplace:
                    a.items.extend(b.items)
                    return a
                return PList(a.items + b.items)
            if isinstance(a, (str, SStr)) and isinstance(b, (str, SStr)):
                return self.strcat([a, b])
        if t is ast.Mult:
            for x, y in ((a, b), (b, a)):
                if isinstance(y, int) and not isinstance(y, bool):
                    if isinstance(x, PList):
                        return PList(x.items * y)
                    if isinstance(x, (tuple, str)):
                        return x * y
        if t is ast.Mod and isinstance(a, str):
            return self.fresh_str("fmt")
        if isinstance(a, PSet) and isinstance(b, PSet):
            if t is ast.BitOr:
                return PSet(self.dedup(a.items + b.items))
            if t is ast.BitAnd:
                return PSet([x for x in a.items if self.truth(self.contains(b, x))])
            if t is ast.Sub:
                return PSet([x for x in a.items if not self.truth(self.contains(b, x))])
        if a is None or b is None or isinstance(a, (str, SStr, tuple, PList, PDict)) or isinstance(b, (str, SStr, tuple, PList, PDict)):
            self.raise_(TypeError, f"unsupported operands {self.DUN[t]}")
        raise Unsupported(f"binop {self.DUN[t]} {a!r} {b!r}")

    def dedup(self, items):
        out = []
        for x in items:
            if not any(self.truth(self.eq(x, y)) for y in out):
                out.append(x)
        return out

    def strcat(self, parts):
        out = []
        for p in parts:
            for q in ((p,) if isinstance(p, str) else p.parts):
                if isinstance(q, str) and out and isinstance(out[-1], str):
                    out[-1] += q
                elif q != "":
                    out.append(q)
        if not out:
            return ""
        if len(out) == 1 and isinstance(out[0], str):
            return out[0]
        return SStr(out)

    def fresh_str(self, base):
        n = self.path.fresh_name("str_" + base)
        return SStr([StrAtom(n, z3.Int(n))])

    def numop(self, t, a, b):
        if t in (ast.BitAnd, ast.BitOr, ast.BitXor) and (isinstance(a, SymBool) or isinstance(b, SymBool)) \
                and isinstance(a, (bool, SymBool)) and isinstance(b, (bool, SymBool)):
            return mkbool({ast.BitAnd: z3.And, ast.BitOr: z3.Or, ast.BitXor: z3.Xor}[t](tobool(a), tobool(b)))
        if isinstance(a, (SymBool,)):
            a = SymNum(term(a))
        if isinstance(b, (SymBool,)):
            b = SymNum(term(b))
        if t is ast.BitAnd or t is ast.BitOr or t is ast.BitXor:
            if isinstance(a, bool) and isinstance(b, bool):
                return {ast.BitAnd: a & b, ast.BitOr: a | b, ast.BitXor: a ^ b}[t]
        if isinstance(a, bool):
            a = int(a)
        if isinstance(b, bool):
            b = int(b)
        a, b = nf(a), nf(b)
        if isinstance(a, float) or isinstance(b, float):
            return self.special_float(t, a, b)
        ca, cb = is_conc_num(a), is_conc_num(b)
        if t is ast.Add:
            return num_add(a, b)
        if t is ast.Sub:
            return num_sub(a, b)
        if t is ast.Mult:
            return num_mul(a, b)
        if t is ast.Div:
            if cb:
                if b == 0:
                    self.raise_(ZeroDivisionError, "division by zero")
            elif self.branch(num_cmp("==", b, 0)):
                self.raise_(ZeroDivisionError, "division by zero")
            return num_div(a, b)
        if t is ast.FloorDiv or t is ast.Mod:
            if cb:
                if b == 0:
                    self.raise_(ZeroDivisionError, "integer division or modulo by zero")
            elif self.branch(num_cmp("==", b, 0)):
                self.raise_(ZeroDivisionError, "integer division or modulo by zero")
            if ca and cb:
                r = a // b if t is ast.FloorDiv else a % b
                if isinstance(a, Fraction) or isinstance(b, Fraction):
                    r = Fraction(r)
                return r
            q = self.floordiv(a, b)
            isr = _isreal(a) or _isreal(b)
            if t is ast.FloorDiv:
                return as_real(q) if isr else q
            return num_sub(a, num_mul(b, q))
        if t is ast.Pow:
            return self.power(a, b)
        if t in (ast.LShift, ast.RShift):
            if _isreal(a) or _isreal(b):
                self.raise_(TypeError, "shift of float")
            if ca and cb:
                if b < 0:
                    self.raise_(ValueError, "negative shift count")
                return a << b if t is ast.LShift else a >> b
            if cb:
                if b < 0:
                    self.raise_(ValueError, "negative shift count")
            elif self.branch(num_cmp("<", b, 0)):
                self.raise_(ValueError, "negative shift count")
            p = self.pow2(b)
            if t is ast.LShift:
                return num_mul(a, p)
            return self.floordiv(a, p, pos=True)
        if t in (ast.BitAnd, ast.BitOr, ast.BitXor):
            if ca and cb:
                return {ast.BitAnd: a & b, ast.BitOr: a | b, ast.BitXor: a ^ b}[t]
            return self.bitop(t, a, b)
        raise Unsupported(f"numop {t.__name__}")

    def bitop(self, t, a, b):
        """supports  x | (k * 2^n) with 0 <= x < 2^n  (disjoint), and x & (2^n - 1)"""
        if t is ast.BitOr:
            for x, y in ((a, b), (b, a)):
                # y is a multiple of 2^n (constant n), 0 <= x < 2^n, y>=0
                for n in (48,):
                    p = 2 ** n
                    f1 = self.prove(z3.And(term(x) >= 0, term(x) < p))
                    if not f1:
                        continue
                    if isinstance(y, int):
                        ok = y % p == 0 and y >= 0
                    else:
                        ok = self.prove(z3.And(term(y) >= 0, term(y) % p == 0))
                    if ok:
                        return num_add(x, y)
        if t is ast.BitAnd:
            for x, y in ((a, b), (b, a)):
                if isinstance(y, int) and y > 0 and (y & (y + 1)) == 0:
                    return self.numop(ast.Mod, x, y + 1)
        raise Unsupported("bitwise operation on symbolic ints")

    def prove(self, t):
        s = z3.Solver()
        s.set("timeout", 3000)
        for f in self.path.facts:
            s.add(f)
        s.add(z3.Not(t))
        return s.check() == z3.unsat

    def special_float(self, t, a, b):
        if is_conc_num(a) and is_conc_num(b):
            fa, fb = float(a), float(b)
            try:
                return {ast.Add: lambda: fa + fb, ast.Sub: lambda: fa - fb, ast.Mult: lambda: fa * fb,
                        ast.Div: lambda: fa / fb, ast.Pow: lambda: fa ** fb}[t]()
            except ZeroDivisionError:
                self.raise_(ZeroDivisionError, "x")
        # nan is absorbing
        for x in (a, b):
            if isinstance(x, float) and x != x:
                return float("nan")
        if t is ast.Add:
            return a if isinstance(a, float) else b
        if t is ast.Sub:
            return a if isinstance(a, float) else -b
        if t is ast.Div and isinstance(b, float):
            return Fraction(0)
        raise Unsupported("arithmetic with inf")

    def pow2(self, e):
        if isinstance(e, int):
            return 2 ** e
        # split off constant part
        te = z3.simplify(e.t)
        base, k = te, 0
        if z3.is_add(te):
            cs = [c for c in te.children() if z3.is_int_value(c)]
            if cs:
                k = sum(c.as_long() for c in cs)
                rest = [c for c in te.children() if not z3.is_int_value(c)]
                base = z3.simplify(z3.Sum(rest)) if len(rest) > 1 else rest[0]
        key = ("pow2", base.get_id())
        if key not in self.path.cache:
            n = self.path.fresh_name("pow2")
            v = z3.Int(n)
            self.path.cache[key] = (v, base)
            self.path.add(z3.Implies(base >= 0, v >= 1))
            self.path.add(z3.Implies(base == 0, v == 1))
            self.path.add(z3.Implies(base >= 1, v >= 2))
            self.path.add(z3.Implies(base >= 0, v >= base + 1))
            for (k2, val) in list(self.path.cache.items()):
                if isinstance(k2, tuple) and k2[0] == "pow2" and k2 != key:
                    v2, b2 = val
                    self.path.add(z3.Implies(z3.And(base >= 0, b2 >= base), v2 >= v))
                    self.path.add(z3.Implies(z3.And(b2 >= 0, base >= b2), v >= v2))
                    self.path.add(z3.Implies(z3.And(b2 >= 0, base > b2), v >= 2 * v2))
                    self.path.add(z3.Implies(z3.And(base >= 0, b2 > base), v2 >= 2 * v))
                    self.path.add(z3.Implies(base == b2, v == v2))
            for m in sorted(self.path.marks):
                self.path.landmark(base, v, m)
        v = self.path.cache[key][0]
        if k >= 0:
            return mknum(z3.simplify(v * 2 ** k))
        # 2^(base+k), k < 0 : meaningful where base + k >= 0
        if -k not in self.path.offsets:
            self.path.offsets.add(-k)
            self.path.note_numerals(z3.IntVal(-k))
        key = ("pow2off", base.get_id(), k)
        if key not in self.path.cache:
            w = z3.Int(self.path.fresh_name("pow2"))
            self.path.cache[key] = (w, base)
            self.path.add(z3.Implies(base + k >= 0, z3.And(v == w * 2 ** (-k), w >= 1)))
            for k2, val in list(self.path.cache.items()):
                if isinstance(k2, tuple) and k2[0] == "pow2off" and k2[2] == k and k2 != key:
                    self.path.add(z3.Implies(base == val[1], w == val[0]))
        return SymNum(self.path.cache[key][0])

    def floordiv(self, a, b, pos=False):
        ta, tb = coerce(a, b)
        key = ("fdiv", ta.get_id(), tb.get_id())
        if key in self.path.cache:
            return self.path.cache[key][0]
        if not pos:
            if is_conc_num(b):
                pos = b > 0
            else:
                pos = self.branch(num_cmp(">", b, 0))
        q = z3.Int(self.path.fresh_name("q"))
        tq = toreal(q) if z3.is_real(ta) else q
        if pos:
            self.path.add(tb * tq <= ta)
            self.path.add(ta < tb * tq + tb)
        else:
            self.path.add(tb * tq >= ta)
            self.path.add(ta > tb * tq + tb)
        r = SymNum(q)
        self.path.cache[key] = (r, ta, tb)
        return r

    def sqrt(self, x):
        """real square root; ValueError when negative"""
        if isinstance(x, float):
            if x == float("inf"):
                return x
            if x != x:
                return x
        if is_conc_num(x):
            x = Fraction(x)
            if x < 0:
                self.raise_(ValueError, "math domain error")
            from math import isqrt
            n, d = isqrt(x.numerator), isqrt(x.denominator)
            if n * n == x.numerator and d * d == x.denominator:
                return Fraction(n, d)
            tx = z3.RealVal(x)
        else:
            if self.branch(num_cmp("<", x, 0)):
                self.raise_(ValueError, "math domain error")
            tx = z3.simplify(toreal(x.t))
        return self._sqrt_term(tx)

    def _sqrt_term(self, tx):
        key = ("sqrt", tx.get_id())
        if key not in self.path.cache:
            from .prover import poly_sqrt_term
            st = poly_sqrt_term(tx)
            if st is not None:
                # tx is a perfect square: the root is +-st, decided on this path
                for sgn, r in ((st < 0, st), (st > 0, -st)):
                    if self.path.refuted(sgn) or not self.path.feasible(sgn):
                        self.path.cache[key] = (SymNum(z3.simplify(r)), tx)
                        return self.path.cache[key][0]
            s = z3.Real(self.path.fresh_name("sqrt"))
            self.path.add(s >= 0)
            self.path.add(s * s == tx)
            self.path.cache[key] = (SymNum(s), tx)
        return self.path.cache[key][0]

    def power(self, a, b):
        ca, cb = is_conc_num(a), is_conc_num(b)
        if ca and cb:
            if isinstance(b, int) or b.denominator == 1:
                n = int(b)
                if n < 0 and a == 0:
                    self.raise_(ZeroDivisionError, "0 to a negative power")
                if n < 0 or isinstance(a, Fraction) or isinstance(b, Fraction):
                    return Fraction(a) ** n
                return a ** n
            if b.denominator == 2:
                s = self.sqrt(a)
                return self.power(s, b.numerator)
            if b.denominator == 4 and a >= 0:
                return self.power(self.sqrt(self.sqrt(a)), b.numerator)
            return self.uf("pow", a, b)
        if cb:
            if isinstance(b, Fraction) and b.denominator == 1:
                r = self.power(as_real(a), int(b))
                return r
            if isinstance(b, int):
                if b >= 0:
                    if b > 12:
                        return self.uf("pow", a, b)
                    r = 1 if not _isreal(a) else Fraction(1)
                    for _ in range(b):
                        r = num_mul(r, a)
                    return r
                if self.branch(num_cmp("==", a, 0)):
                    self.raise_(ZeroDivisionError, "0.0 cannot be raised to a negative power")
                return num_div(1, self.power(a, -b))
            if b.denominator == 2:
                if self.branch(num_cmp("<", a, 0)):
                    raise Unsupported("complex power")
                s = self.sqrt(a)
                return self.power(s, b.numerator)
            if b.denominator == 4 and not self.branch(num_cmp("<", a, 0)):
                return self.power(self.sqrt(self.sqrt(a)), b.numerator)
            return self.uf("pow", a, b)
        if ca and a > 0:
            return self.cpow(a, b)
        return self.uf("pow", a, b)

    def cpow(self, a, e):
        """a**e for a concrete base a>0: product of generators  a**atom, as exact algebra"""
        if isinstance(a, int) and a == 2 and e.isint:
            if self.branch(num_cmp(">=", e, 0)):
                return self.pow2(e)
            return num_div(1, self.pow2(num_sub(0, e)))
        te = z3.simplify(e.t, som=True)
        terms = te.children() if z3.is_add(te) else [te]
        res = Fraction(1)
        for t in terms:
            coef = Fraction(1)
            atom = t
            if z3.is_mul(t) and len(t.children()) == 2 and (z3.is_rational_value(t.arg(0)) or z3.is_int_value(t.arg(0))):
                c0 = t.arg(0)
                coef = Fraction(c0.as_long()) if z3.is_int_value(c0) else Fraction(c0.numerator_as_long(), c0.denominator_as_long())
                atom = t.arg(1)
            elif z3.is_int_value(t) or z3.is_rational_value(t):
                c = Fraction(t.as_long()) if z3.is_int_value(t) else Fraction(t.numerator_as_long(), t.denominator_as_long())
                res = num_mul(res, self.power(Fraction(a), c))
                continue
            if coef.denominator == 1 and abs(coef.numerator) > 12:
                coef, atom = Fraction(1), t
            if z3.is_to_real(atom):
                atom = atom.arg(0)
            key = ("cpow", str(a), atom.get_id())
            if key not in self.path.cache:
                v = z3.Real(self.path.fresh_name("pw"))
                self.path.add(v > 0)
                if a > 1:
                    ta = toreal(atom)
                    self.path.add(z3.Implies(ta >= 0, v >= 1))
                    self.path.add(z3.Implies(ta > 0, v > 1))
                    self.path.add(z3.Implies(ta <= 0, v <= 1))
                    self.path.add(z3.Implies(ta < 0, v < 1))
                    for (k2, val) in list(self.path.cache.items()):
                        if isinstance(k2, tuple) and k2[0] == "cpow" and k2[1] == str(a) and k2 != key:
                            v2, b2 = val
                            self.path.add((toreal(b2) < ta) == (v2 < v))
                            self.path.add((toreal(b2) == ta) == (v2 == v))
                self.path.cache[key] = (v, atom)
            g = SymNum(self.path.cache[key][0])
            n, d = coef.numerator, coef.denominator
            if d == 2:
                g = self._sqrt_term(g.t)
            elif d != 1:
                return self.uf("pow", a, e)
            if abs(n) > 12:
                return self.uf("pow", a, e)
            p = Fraction(1)
            for _ in range(abs(n)):
                p = num_mul(p, g)
            res = num_mul(res, p) if n > 0 else num_div(res, p)
        isint_result = isinstance(a, int) and e.isint
        return res

    def uf(self, name, *args):
        ts = [toreal(term(a)) for a in args]
        f = z3.Function("uf_" + name, *([z3.RealSort()] * (len(ts) + 1)))
        return SymNum(f(*ts))

    # -- statements ------------------------------------------------------
    def exec_block(self, body, env):
        for st in body:
            self.exec(st, env)

    def exec(self, st, env):
        self.steps += 1
        if self.steps > 400000:
            raise Unsupported("step limit")
        m = getattr(self, "st_" + type(st).__name__, None)
        if m is None:
            raise Unsupported(f"statement {type(st).__name__}")
        return m(st, env)

    def st_Expr(self, st, env):
        self.eval(st.value, env)

    def st_Pass(self, st, env):
        pass

    def st_Assign(self, st, env):
        v = self.eval(st.value, env)
        for t in st.targets:
            self.assign(t, v, env)

    def st_AnnAssign(self, st, env):
        if st.value is not None:
            self.assign(st.target, self.eval(st.value, env), env)

    def st_AugAssign(self, st, env):
        t = st.target
        if isinstance(t, ast.Name):
            cur = self.eval(ast.copy_location(ast.Name(t.id, ast.Load()), t), env)
            self.assign(t, self.binop(st.op, cur, self.eval(st.value, env), inplace=True), env)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, env)
            cur = self.getattr(o, t.attr)
            self.setattr(o, t.attr, self.binop(st.op, cur, self.eval(st.value, env), inplace=True))
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, env)
            k = self.eval_index(t.slice, env)
            cur = self.getitem(o, k)
            self.setitem(o, k, self.binop(st.op, cur, self.eval(st.value, env), inplace=True))
        else:
            raise Unsupported("augassign")

    def assign(self, t, v, env):
        if isinstance(t, ast.Name):
            env.vars[t.id] = v
        elif isinstance(t, ast.Attribute):
            self.setattr(self.eval(t.value, env), t.attr, v)
        elif isinstance(t, ast.Subscript):
            self.setitem(self.eval(t.value, env), self.eval_index(t.slice, env), v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            stars = [i for i, x in enumerate(t.elts) if isinstance(x, ast.Starred)]
            if isinstance(v, Opaque):
                for x in t.elts:
                    self.assign(x, Opaque(v.name + "[]"), env)
                return
            if v is None or is_num(v):
                self.raise_(TypeError, "cannot unpack")
            vals = list(self.iterate(v))
            if stars:
                i = stars[0]
                n = len(t.elts) - 1
                if len(vals) < n:
                    self.raise_(ValueError, "not enough values to unpack")
                tail = len(t.elts) - i - 1
                for x, y in zip(t.elts[:i], vals[:i]):
                    self.assign(x, y, env)
                self.assign(t.elts[i].value, PList(vals[i: len(vals) - tail]), env)
                for x, y in zip(t.elts[i + 1:], vals[len(vals) - tail:]):
                    self.assign(x, y, env)
                return
            if len(vals) != len(t.elts):
                self.raise_(ValueError, "wrong number of values to unpack")
            for x, y in zip(t.elts, vals):
                self.assign(x, y, env)
        else:
            raise Unsupported("assign target")

    def st_Return(self, st, env):
        raise _Return(self.eval(st.value, env) if st.value is not None else None)

    def st_If(self, st, env):
        if self.truth(self.eval(st.test, env)):
            self.exec_block(st.body, env)
        else:
            self.exec_block(st.orelse, env)

    def st_Break(self, st, env):
        raise _Break()

    def st_Continue(self, st, env):
        raise _Continue()

    def st_FunctionDef(self, st, env):
        f = self.make_func(st, env, None)
        f.qual = f"{env.module.src.dotted}:{(env.func.qual.split(':')[1] + '.') if env.func else ''}{st.name}"
        env.vars[st.name] = self.decorate(st, f, env)

    def st_ClassDef(self, st, env):
        env.vars[st.name] = ClassInfo(self, st, env.module, env)

    def st_Import(self, st, env):
        for a in st.names:
            env.vars[(a.asname or a.name).split(".")[0]] = self.import_module(a.name)

    def st_ImportFrom(self, st, env):
        for a in st.names:
            env.vars[a.asname or a.name] = self.import_from(env.module.resolve_from(st.module, st.level), a.name)

    def st_Global(self, st, env):
        raise Unsupported("global")

    def st_Nonlocal(self, st, env):
        raise Unsupported("nonlocal")

    def st_Delete(self, st, env):
        for t in st.targets:
            if isinstance(t, ast.Name):
                env.vars.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                o = self.eval(t.value, env)
                k = self.eval_index(t.slice, env)
                if self.loop_guard is not None:
                    self.guard(o)
                if isinstance(o, PDict):
                    i = self.dict_find(o, k)
                    if i is None:
                        self.raise_(KeyError, k)
                    del o.keys[i], o.vals[i]
                elif isinstance(o, PList):
                    if isinstance(k, int):
                        if not -len(o.items) <= k < len(o.items):
                            self.raise_(IndexError, k)
                        del o.items[k]
                    else:
                        raise Unsupported("del list[sym]")
                elif isinstance(o, Opaque):
                    pass
                else:
                    raise Unsupported("del")
            elif isinstance(t, ast.Attribute):
                o = self.eval(t.value, env)
                o.f.pop(t.attr, None)
            else:
                raise Unsupported("del target")

    def st_Assert(self, st, env):
        if not self.truth(self.eval(st.test, env)):
            self.raise_(AssertionError, "assert")

    def st_Raise(self, st, env):
        if st.exc is None:
            cur = getattr(self, "_curexc", None)
            if not cur:
                raise Unsupported("bare raise")
            raise PyRaise(cur[-1])
        v = self.eval(st.exc, env)
        if isinstance(v, type) and issubclass(v, BaseException):
            v = ExcVal(v)
        elif isinstance(v, ClassInfo):
            v = self.instantiate(v, [], {})
        if not isinstance(v, ExcVal):
            raise Unsupported(f"raise {v!r}")
        raise PyRaise(v)

    def st_Try(self, st, env):
        def run():
            try:
                self.exec_block(st.body, env)
            except PyRaise as e:
                for h in st.handlers:
                    if h.type is None or self.exc_match(e.exc, self.eval(h.type, env)):
                        if h.name:
                            env.vars[h.name] = e.exc
                        if not hasattr(self, "_curexc"):
                            self._curexc = []
                        self._curexc.append(e.exc)
                        try:
                            self.exec_block(h.body, env)
                        finally:
                            self._curexc.pop()
                        return
                raise
            else:
                self.exec_block(st.orelse, env)
        if not st.finalbody:
            return run()
        try:
            run()
        except (PyRaise, _Return, _Break, _Continue):
            self.exec_block(st.finalbody, env)
            raise
        self.exec_block(st.finalbody, env)

    def exc_match(self, exc, h):
        if isinstance(h, tuple):
            return any(self.exc_match(exc, x) for x in h)
        if isinstance(h, Opaque):
            return False
        return is_subexc(exc.cls, h)

    def st_With(self, st, env):
        raise Unsupported("with")

    # loops ---------------------------------------------------------------
    def st_While(self, st, env):
        n = 0
        nsym = 0
        while True:
            c = self.eval(st.test, env)
            if isinstance(c, (SymBool, SymNum)):
                nsym += 1
                if nsym > self.unroll_symbolic:
                    return self.inv_loop(st, env, None)
            if not self.truth(c):
                self.exec_block(st.orelse, env)
                return
            try:
                self.exec_block(st.body, env)
            except _Break:
                return
            except _Continue:
                pass
            n += 1
            if n > self.MAX_UNROLL:
                raise Unsupported("loop unroll limit")

    def st_For(self, st, env):
        it = self.eval(st.iter, env)
        if isinstance(it, (SymList, SymRange)):
            return self.inv_loop(st, env, it)
        if isinstance(it, Obj):
            m = it.cls.lookup("__iter__")
            if m is not _MISSING:
                it = self.call(Bound(m, it))
        for x in (self.taken(it) if isinstance(it, PIter) else list(self.iterate(it))):
            self.assign(st.target, x, env)
            try:
                self.exec_block(st.body, env)
            except _Break:
                return
            except _Continue:
                continue
        self.exec_block(st.orelse, env)

    def inv_loop(self, st, env, seq):
        from .loops import run_invariant_loop
        return run_invariant_loop(self, st, env, seq)

    # -- iteration -------------------------------------------------------
    @staticmethod
    def taken(it):
        while it.items:
            yield it.items.pop(0)

    def iterate(self, v):
        if isinstance(v, PIter):
            r, v.items = v.items, []
            return r
        if isinstance(v, (PList, PSet)):
            return list(v.items)
        if isinstance(v, (tuple, list)):
            return list(v)
        if isinstance(v, PDict):
            return list(v.keys)
        if isinstance(v, str):
            return list(v)
        if isinstance(v, Obj):
            m = v.cls.lookup("__iter__")
            nx = v.cls.lookup("__next__")
            if m is not _MISSING:
                it = self.call(Bound(m, v))
                if it is not v or nx is _MISSING:
                    return self.iterate(it)
            if nx is not _MISSING and m is not _MISSING:
                r = []
                while True:
                    if len(r) > 1000:
                        raise Unsupported("iterator that does not end")
                    try:
                        r.append(self.call(Bound(nx, v)))
                    except PyRaise as ex:
                        if is_subexc(ex.exc.cls, StopIteration):
                            return r
                        raise
        if v is None or is_num(v) or isinstance(v, (SymBool, ClassInfo)):
            self.raise_(TypeError, "object is not iterable")
        if isinstance(v, Obj):
            self.raise_(TypeError, f"'{v.cls.name}' object is not iterable")
        raise Unsupported(f"iteration over {v!r}")

    # -- expressions -----------------------------------------------------
    def eval(self, e, env):
        m = getattr(self, "ex_" + type(e).__name__, None)
        if m is None:
            raise Unsupported(f"expression {type(e).__name__}")
        return m(e, env)

    def ex_Constant(self, e, env):
        v = e.value
        if isinstance(v, float):
            if v != v or v in (float("inf"), float("-inf")):
                return v
            return Fraction(repr(v))
        if isinstance(v, (complex, bytes)) or v is Ellipsis:
            raise Unsupported("constant")
        return v

    def ex_Name(self, e, env):
        try:
            v = env.lookup(e.id)
            if isinstance(v, Poison):
                raise Unsupported(f"value of {v.name} after an abstracted loop")
            return v
        except KeyError:
            pass
        try:
            return env.module.get(e.id)
        except KeyError:
            pass
        if e.id in self.builtins:
            return self.builtins[e.id]
        if e.id == "super":
            return Builtin("super", lambda *a: SuperProxy(env.defcls, env.selfv))
        if e.id == "__name__":
            return env.module.src.dotted
        # star imports
        for st in env.module.src.tree.body:
            if isinstance(st, ast.ImportFrom) and st.names[0].name == "*":
                try:
                    return self.import_from(env.module.resolve_from(st.module, st.level), e.id)
                except KeyError:
                    pass
        self.raise_(NameError, e.id)

    def ex_Attribute(self, e, env):
        return self.getattr(self.eval(e.value, env), e.attr)

    def ex_Call(self, e, env):
        if isinstance(e.func, ast.Name) and e.func.id == "super" and not e.args:
            return SuperProxy(env.defcls, env.selfv)
        if isinstance(e.func, ast.Name) and e.func.id == "print":
            return None
        if isinstance(e.func, ast.Name) and e.func.id in ("globals", "locals"):
            raise Unsupported(e.func.id)
        f = self.eval(e.func, env)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                args.extend(self.iterate(self.eval(a.value, env)))
            elif isinstance(a, ast.GeneratorExp):
                args.append(self.comp_list(a, env))
            else:
                args.append(self.eval(a, env))
        kw = {}
        for k in e.keywords:
            v = self.eval(k.value, env)
            if k.arg is None:
                if isinstance(v, PDict):
                    for kk, vv in zip(v.keys, v.vals):
                        kw[kk] = vv
                elif isinstance(v, Opaque):
                    raise Unsupported("**external")
                else:
                    raise Unsupported("**")
            else:
                kw[k.arg] = v
        return self.call(f, args, kw)

    def ex_BinOp(self, e, env):
        return self.binop(e.op, self.eval(e.left, env), self.eval(e.right, env))

    def ex_UnaryOp(self, e, env):
        v = self.eval(e.operand, env)
        if isinstance(e.op, ast.Not):
            if isinstance(v, SymBool):
                return mkbool(z3.Not(v.t))
            return not self.truth(v)
        if isinstance(v, Obj):
            n = {ast.USub: "__neg__", ast.UAdd: "__pos__", ast.Invert: "__invert__"}[type(e.op)]
            m = v.cls.lookup(n)
            if m is _MISSING:
                self.raise_(TypeError, n)
            return self.call(Bound(m, v))
        if isinstance(v, Opaque):
            return v
        if isinstance(e.op, ast.USub):
            if v is None or isinstance(v, str):
                self.raise_(TypeError, "bad operand")
            if isinstance(v, float):
                return -v
            return num_sub(0, v) if not _isreal(v) else num_sub(Fraction(0), v)
        if isinstance(e.op, ast.UAdd):
            return v
        if isinstance(e.op, ast.Invert) and is_num(v):
            return num_sub(-1, v)
        raise Unsupported("unary")

    def ex_BoolOp(self, e, env):
        isand = isinstance(e.op, ast.And)
        v = None
        for i, x in enumerate(e.values):
            v = self.eval(x, env)
            if i == len(e.values) - 1:
                return v
            t = self.truth(v)
            if isand and not t:
                return v if not isinstance(v, SymBool) else False
            if not isand and t:
                return v if not isinstance(v, SymBool) else True
        return v

    def ex_Compare(self, e, env):
        left = self.eval(e.left, env)
        res = True
        for i, (op, r) in enumerate(zip(e.ops, e.comparators)):
            right = self.eval(r, env)
            c = self.compare(op, left, right)
            if i == len(e.ops) - 1 and res is True:
                return c
            if not isinstance(c, (bool, SymBool)):
                c = self.truth(c)
            res = self.and_(res, c)
            if res is False:
                return False
            left = right
        return res

    def ex_IfExp(self, e, env):
        return self.eval(e.body if self.truth(self.eval(e.test, env)) else e.orelse, env)

    def ex_Tuple(self, e, env):
        return tuple(self._elts(e, env))

    def ex_List(self, e, env):
        return PList(self._elts(e, env))

    def ex_Set(self, e, env):
        return PSet(self.dedup(self._elts(e, env)))

    def _elts(self, e, env):
        out = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                out.extend(self.iterate(self.eval(x.value, env)))
            else:
                out.append(self.eval(x, env))
        return out

    def ex_Dict(self, e, env):
        d = PDict()
        for k, v in zip(e.keys, e.values):
            if k is None:
                o = self.eval(v, env)
                if not isinstance(o, PDict):
                    raise Unsupported("** in dict")
                for kk, vv in zip(o.keys, o.vals):
                    self.dict_set(d, kk, vv)
            else:
                self.dict_set(d, self.eval(k, env), self.eval(v, env))
        return d

    def ex_Lambda(self, e, env):
        f = self.make_func(e, env, None)
        return f

    def ex_JoinedStr(self, e, env):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
            else:
                x = self.eval(v.value, env)
                if v.format_spec is not None:
                    parts.append(self.fresh_str("fmt"))
                    continue
                parts.append(self.to_str(x))
        return self.strcat(parts)

    def ex_FormattedValue(self, e, env):
        return self.to_str(self.eval(e.value, env))

    def to_str(self, x):
        if isinstance(x, (str, SStr)):
            return x
        if isinstance(x, (bool, int)) or x is None:
            return str(x)
        if isinstance(x, ExcVal) and len(x.args) == 1 and isinstance(x.args[0], (str, SStr)) and x.cls in (AttributeError, TypeError, ValueError, AssertionError):
            return x.args[0]
        if isinstance(x, Obj):
            m = x.cls.lookup("__str__")
            if m is _MISSING:
                m = x.cls.lookup("__repr__")
            if m is not _MISSING:
                try:
                    return self.call(Bound(m, x))
                except Unsupported:
                    return self.fresh_str("repr")
            return self.fresh_str("repr")
        if isinstance(x, SymNum):
            key = ("str", z3.simplify(x.t).get_id())
            if key not in self.path.cache:
                st = self.fresh_str("num")
                st.parts[0].num = x
                self.path.cache[key] = (st, x)
            return self.path.cache[key][0]
        return self.fresh_str("any")

    def ex_ListComp(self, e, env):
        return self.comp_list(e, env)

    def ex_GeneratorExp(self, e, env):
        r = self.comp_list(e, env)
        return PIter(r.items) if type(r) is PList else r

    def ex_SetComp(self, e, env):
        r = self.comp_list(e, env)
        if isinstance(r, PList):
            return PSet(self.dedup(r.items))
        raise Unsupported("set comprehension over a symbolic list")

    def ex_DictComp(self, e, env):
        d = PDict()

        def go(i, env2):
            if i == len(e.generators):
                self.dict_set(d, self.eval(e.key, env2), self.eval(e.value, env2))
                return
            g = e.generators[i]
            for x in self.iterate(self.eval(g.iter, env2)):
                self.assign(g.target, x, env2)
                if all(self.truth(self.eval(c, env2)) for c in g.ifs):
                    go(i + 1, env2)
        go(0, Env(env, env.module))
        return d

    def comp_list(self, e, env):
        g0 = e.generators[0]
        it0 = self.eval(g0.iter, env)
        if isinstance(it0, (SymList, FilterList)) and len(e.generators) == 1:
            src = it0
            base = src.src if isinstance(src, FilterList) else src
            prev = src.step if isinstance(src, FilterList) else (lambda x: (True, x))

            def step(x):
                inc, val = prev(x)
                if not inc:
                    return False, None
                e2 = Env(env, env.module)
                self.assign(g0.target, val, e2)
                if not all(self.truth(self.eval(c, e2)) for c in g0.ifs):
                    return False, None
                return True, self.eval(e.elt, e2)
            return FilterList(base, step)
        out = []

        def go(i, env2, it):
            g = e.generators[i]
            for x in self.iterate(it):
                self.assign(g.target, x, env2)
                if all(self.truth(self.eval(c, env2)) for c in g.ifs):
                    if i + 1 == len(e.generators):
                        out.append(self.eval(e.elt, env2))
                    else:
                        go(i + 1, env2, self.eval(e.generators[i + 1].iter, env2))
        go(0, Env(env, env.module), it0)
        return PList(out)

    def ex_Subscript(self, e, env):
        o = self.eval(e.value, env)
        return self.getitem(o, self.eval_index(e.slice, env))

    def eval_index(self, s, env):
        if isinstance(s, ast.Slice):
            f = lambda x: None if x is None else self.eval(x, env)
            return slice(f(s.lower), f(s.upper), f(s.step))
        return self.eval(s, env)

    def ex_Slice(self, e, env):
        return self.eval_index(e, env)

    def ex_Starred(self, e, env):
        raise Unsupported("starred")

    def ex_Yield(self, e, env):
        v = self.eval(e.value, env) if e.value is not None else None
        en = env
        while en is not None and en.yields is None:
            en = en.parent
        en.yields.append(v)
        return None

    def ex_NamedExpr(self, e, env):
        v = self.eval(e.value, env)
        self.assign(e.target, v, env)
        return v

    def getitem(self, o, k):
        if isinstance(o, PDict):
            if o.cls is not None and o.cls.lookup("__getitem__") is not _MISSING:
                return self.call(Bound(o.cls.lookup("__getitem__"), o), [k])
            i = self.dict_find(o, k)
            if i is None:
                self.raise_(KeyError, k)
            return o.vals[i]
        if isinstance(o, PIter):
            self.raise_(TypeError, "an iterator is not subscriptable")
        if isinstance(o, (PList, tuple)):
            items = o.items if isinstance(o, PList) else o
            if isinstance(k, slice):
                if any(isinstance(x, SymNum) for x in (k.start, k.stop, k.step)):
                    raise Unsupported("symbolic slice")
                r = items[k]
                return PList(r) if isinstance(o, PList) else tuple(r)
            if isinstance(k, SymNum):
                for i in range(len(items)):
                    if self.branch(num_cmp("==", k, i)):
                        return items[i]
                raise Unsupported("symbolic index")
            if isinstance(k, bool):
                k = int(k)
            if not isinstance(k, int):
                self.raise_(TypeError, "indices must be integers")
            if not -len(items) <= k < len(items):
                self.raise_(IndexError, k)
            return items[k]
        if isinstance(o, SymList):
            if isinstance(k, (int, SymNum)):
                if not self.branch(num_cmp("<", k, o.length)):
                    self.raise_(IndexError, "index")
                if not self.branch(num_cmp(">=", k, 0)):
                    raise Unsupported("negative symbolic index")
                return o.elem(k)
            raise Unsupported("SymList subscript")
        if isinstance(o, str):
            if isinstance(k, (int, slice)):
                try:
                    return o[k]
                except IndexError:
                    self.raise_(IndexError, k)
        if isinstance(o, Obj):
            m = o.cls.lookup("__getitem__")
            if m is not _MISSING:
                return self.call(Bound(m, o), [k])
            self.raise_(TypeError, "not subscriptable")
        if isinstance(o, Opaque):
            return Opaque(o.name + "[]")
        if isinstance(o, ExcVal):
            self.raise_(TypeError, "not subscriptable")
        if o is None or is_num(o):
            self.raise_(TypeError, "not subscriptable")
        raise Unsupported(f"subscript of {o!r}")

    def setitem(self, o, k, v):
        if self.loop_guard is not None and not isinstance(o, (Obj, Opaque)):
            self.guard(o)
        if isinstance(o, PDict):
            if o.cls is not None and o.cls.lookup("__setitem__") is not _MISSING:
                return self.call(Bound(o.cls.lookup("__setitem__"), o), [k, v])
            return self.dict_set(o, k, v)
        if isinstance(o, PList):
            if isinstance(k, int):
                if not -len(o.items) <= k < len(o.items):
                    self.raise_(IndexError, k)
                o.items[k] = v
                return
            if isinstance(k, SymNum):
                for i in range(len(o.items)):
                    if self.branch(num_cmp("==", k, i)):
                        o.items[i] = v
                        return
            raise Unsupported("list setitem")
        if isinstance(o, Obj):
            m = o.cls.lookup("__setitem__")
            if m is not _MISSING:
                return self.call(Bound(m, o), [k, v])
        if isinstance(o, Opaque):
            return
        raise Unsupported(f"setitem on {o!r}")


class SymRange:
    def __init__(self, lo, hi):
        self.lo, self.hi = lo, hi


def _isreal(v):
    return isinstance(v, (Fraction, float)) or (isinstance(v, SymNum) and not v.isint)
