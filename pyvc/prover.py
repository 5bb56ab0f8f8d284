"""Discharging obligations:  facts |- goal.

Back ends (each sound for 'proved'; a fact may be dropped or weakened, a goal never):
  z3        the obligation as generated
  poly      rational-function normal form, ints relaxed to reals, z3 nlsat
  products  linear reasoning over products of hypotheses (LRA over monomials)
  cvc5      the obligation as generated, SMT-LIB to cvc5
"""
import time
from fractions import Fraction
import z3


class Timeout(Exception):
    pass


# ---------------- polynomials: dict monomial -> Fraction ---------------------
# monomial: tuple of (atomid, exp) sorted
class PolyCtx:
    def __init__(self):
        self.atoms = {}      # id -> z3 expr (real-sorted)
        self.memo = {}

    def atom(self, e):
        i = e.get_id()
        self.atoms[i] = e
        return {((i, 1),): Fraction(1)}


def p_add(a, b, s=1):
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) + s * c
        if v == 0:
            r.pop(m, None)
        else:
            r[m] = v
    return r


def m_mul(m, n):
    d = dict(m)
    for v, e in n:
        d[v] = d.get(v, 0) + e
    return tuple(sorted(d.items()))


MAXTERMS = 4000


def p_mul(a, b):
    if len(a) * len(b) > 200000:
        raise Timeout("poly size")
    r = {}
    for m, c in a.items():
        for n, d in b.items():
            k = m_mul(m, n)
            v = r.get(k, 0) + c * d
            if v == 0:
                r.pop(k, None)
            else:
                r[k] = v
    if len(r) > MAXTERMS:
        raise Timeout("poly size")
    return r


def p_const(c):
    return {(): Fraction(c)} if c != 0 else {}


def p_key(p):
    return tuple(sorted(p.items()))


# rational function: (num poly, {factor_key: (poly, exp)})
def rf_mulden(d1, d2):
    r = dict(d1)
    for k, (p, e) in d2.items():
        r[k] = (p, r[k][1] + e) if k in r else (p, e)
    return r


def den_poly(d):
    r = p_const(1)
    for p, e in d.values():
        for _ in range(e):
            r = p_mul(r, p)
    return r


def lcm_parts(d1, d2):
    """returns lcm, mult1, mult2 with lcm = d1*mult1 = d2*mult2"""
    l, m1, m2 = {}, {}, {}
    for k in set(d1) | set(d2):
        p = (d1.get(k) or d2.get(k))[0]
        e1 = d1[k][1] if k in d1 else 0
        e2 = d2[k][1] if k in d2 else 0
        e = max(e1, e2)
        l[k] = (p, e)
        if e > e1:
            m1[k] = (p, e - e1)
        if e > e2:
            m2[k] = (p, e - e2)
    return l, m1, m2


def rf(ctx, e):
    k = e.get_id()
    if k in ctx.memo:
        return ctx.memo[k][0]
    r = _rf(ctx, e)
    ctx.memo[k] = (r, e)
    return r


def _rf(ctx, e):
    if z3.is_int_value(e):
        return p_const(e.as_long()), {}
    if z3.is_rational_value(e):
        return p_const(Fraction(e.numerator_as_long(), e.denominator_as_long())), {}
    if z3.is_to_real(e):
        return rf(ctx, e.arg(0))
    d = e.decl().kind()
    if d == z3.Z3_OP_ADD or d == z3.Z3_OP_SUB:
        s = 1 if d == z3.Z3_OP_ADD else -1
        n, dn = rf(ctx, e.arg(0))
        for c in e.children()[1:]:
            n2, d2 = rf(ctx, c)
            l, m1, m2 = lcm_parts(dn, d2)
            n = p_add(p_mul(n, den_poly(m1)), p_mul(n2, den_poly(m2)), s)
            dn = l
        return n, dn
    if d == z3.Z3_OP_UMINUS:
        n, dn = rf(ctx, e.arg(0))
        return {m: -c for m, c in n.items()}, dn
    if d == z3.Z3_OP_MUL:
        n, dn = p_const(1), {}
        for c in e.children():
            n2, d2 = rf(ctx, c)
            n = p_mul(n, n2)
            dn = rf_mulden(dn, d2)
        return cancel(n, dn)
    if d == z3.Z3_OP_DIV:
        n1, d1 = rf(ctx, e.arg(0))
        n2, d2 = rf(ctx, e.arg(1))
        if not n2:
            return ctx.atom(e), {}
        # (n1/d1) / (n2/d2) = n1*d2 / (d1*n2);  d2 != 0 holds whenever n2/d2 is defined
        l, m1, m2 = lcm_parts(d1, d2)     # n1*m1/l  /  n2*m2/l  = n1*m1/(n2*m2)
        num = p_mul(n1, den_poly(m1))
        den = {}
        c = Fraction(1)
        if len(n2) == 1:
            (m, c), = n2.items()
            for v, ex in m:
                q = {((v, 1),): Fraction(1)}
                den[p_key(q)] = (q, ex)
        else:
            lead = n2[max(n2)]
            c = lead
            q = {mm: cc / lead for mm, cc in n2.items()}
            den[p_key(q)] = (q, 1)
        for kk, (p, ex) in m2.items():
            den[kk] = (p, den[kk][1] + ex) if kk in den else (p, ex)
        num = {mm: cc / c for mm, cc in num.items()}
        return cancel(num, den)
    if d == z3.Z3_OP_POWER and z3.is_int_value(e.arg(1)) and 0 <= e.arg(1).as_long() <= 8:
        n, dn = rf(ctx, e.arg(0))
        rn, rd = p_const(1), {}
        for _ in range(e.arg(1).as_long()):
            rn = p_mul(rn, n)
            rd = rf_mulden(rd, dn)
        return rn, rd
    return ctx.atom(e), {}


def cancel(n, d):
    """cancel single-variable denominator factors dividing the numerator; and exact poly factor == numerator"""
    if not d or not n:
        return n, ({} if not n else d)
    d = dict(d)
    for k, (p, e) in list(d.items()):
        if len(p) == 1:
            (m, c), = p.items()
            (v, _), = m
            k_min = min((dict(mm).get(v, 0) for mm in n), default=0)
            t = min(k_min, e)
            if t:
                n2 = {}
                for mm, cc in n.items():
                    dd = dict(mm)
                    dd[v] -= t
                    if dd[v] == 0:
                        del dd[v]
                    n2[tuple(sorted(dd.items()))] = cc
                n = n2
                if e == t:
                    del d[k]
                else:
                    d[k] = (p, e - t)
        else:
            while k in d:
                q = p_divexact(n, p)
                if q is None:
                    break
                n = q
                e -= 1
                if e == 0:
                    del d[k]
                else:
                    d[k] = (p, e)
    return n, d


def p_divexact(n, p):
    """exact multivariate division n/p or None"""
    if len(n) < len(p) and len(n) != 0:
        if len(n) == 1:
            return None
    if len(n) > 400:
        return None
    lead = max(p)
    lc = p[lead]
    ld = dict(lead)
    q = {}
    r = dict(n)
    it = 0
    while r:
        it += 1
        if it > 300:
            return None
        m = max(r)
        c = r[m]
        dd = dict(m)
        for v, e in ld.items():
            if dd.get(v, 0) < e:
                return None
            dd[v] -= e
            if dd[v] == 0:
                del dd[v]
        t = {tuple(sorted(dd.items())): c / lc}
        q = p_add(q, t)
        r = p_add(r, p_mul(t, p), -1)
        if max(r, default=None) is not None and max(r) > m:
            return None
    return q


def p_sqrt(p):
    """polynomial q with q*q == p, or None"""
    from math import isqrt
    if len(p) > 60:
        return None
    vs = sorted({v for m in p for v, _ in m})

    def vec(m):
        d = dict(m)
        return tuple(d.get(v, 0) for v in vs)

    def mono(x):
        return tuple((v, e) for v, e in zip(vs, x) if e)
    lead = max(p, key=vec)
    lc, lv = p[lead], vec(lead)
    if lc <= 0 or any(e % 2 for e in lv):
        return None
    a, b = isqrt(lc.numerator), isqrt(lc.denominator)
    if a * a != lc.numerator or b * b != lc.denominator:
        return None
    lv = tuple(e // 2 for e in lv)
    l2 = Fraction(a, b)
    q = {mono(lv): l2}
    r = p_add(p, p_mul(q, q), -1)
    for _ in range(30):
        if not r:
            return q
        m = max(r, key=vec)
        e = tuple(x - y for x, y in zip(vec(m), lv))
        if any(x < 0 for x in e) or e >= lv:
            return None
        t = {mono(e): r[m] / (2 * l2)}
        q = p_add(q, t)
        r = p_add(p, p_mul(q, q), -1)
    return None


def poly_sqrt_term(t):
    """z3 term s with s*s == t (t a real term) when t is the square of a rational function, else None"""
    ctx = PolyCtx()
    try:
        n, d = rf(ctx, t)
        if not n:
            return None
        sn = p_sqrt(n)
        if sn is None:
            # the denominator may have to be completed to a square first
            return None
        den = z3.RealVal(1)
        for p, e in d.values():
            if e % 2:
                return None
            for _ in range(e // 2):
                den = den * poly_to_term(ctx, p)
    except Timeout:
        return None
    num = poly_to_term(ctx, sn)
    return z3.simplify(num / den) if d else num


def poly_to_term(ctx, p):
    ts = []
    for m, c in sorted(p.items()):
        f = [z3.RealVal(c)] if c != 1 or not m else []
        for v, e in m:
            x = ctx.atoms[v]
            x = z3.ToReal(x) if x.sort() == z3.IntSort() else x
            f += [x] * e
        ts.append(z3.Product(*f) if len(f) > 1 else f[0])
    return z3.Sum(*ts) if len(ts) > 1 else ts[0]


class Prover:
    def __init__(self, stats=None):
        self.stats = stats if stats is not None else {}
        self.inc, self.inc_ids, self.inc_facts = None, [], []

    # -- public ---------------------------------------------------------
    def prove(self, facts, goal, budget=30.0, hint=None):
        """returns (status, backend, model_or_None); status in proved/failed/unknown"""
        t0 = time.time()
        goal = z3.simplify(goal)
        if z3.is_true(goal):
            return "proved", "simplify", None
        model = None
        # conjunctions separately
        if z3.is_and(goal):
            bk = []
            for g in goal.children():
                s, b, m = self.prove(facts, g, budget)
                if s != "proved":
                    return s, b, m
                bk.append(b)
            return "proved", "+".join(sorted(set(bk))), None
        if z3.is_app(goal) and goal.decl().kind() == z3.Z3_OP_IMPLIES:
            return self.prove(list(facts) + [goal.arg(0)], goal.arg(1), budget)
        if self.quick(facts, goal):
            return "proved", "z3", None
        facts = self.dedup(facts)
        linear = not self.nonlinear(list(facts) + [goal])
        s, m = self.z3_check(facts, goal, 1.5 if not linear else min(budget, 20))
        if s == "unsat":
            return "proved", "z3", None
        if s == "sat":
            return "failed", "z3", m
        rel = self.relevant(facts, goal)
        steps = [("poly", lambda: self.poly_check(facts, goal, 4, rel)),
                 ("poly", lambda: self.poly_check(facts, goal, 6, None)),
                 ("products", lambda: self.products(facts, goal, rel)),
                 ("z3", lambda: self.z3_check(rel, goal, 6)),
                 ("poly", lambda: self.poly_check(facts, goal, 20, None)),
                 ("cvc5", lambda: self.cvc5_check(rel, goal, 10)),
                 ("z3", lambda: self.z3_check(facts, goal, 20))]
        for name, fn in steps:
            if time.time() - t0 > budget:
                break
            try:
                s, m = fn()
            except (Timeout, z3.Z3Exception, RecursionError):
                continue
            if s == "unsat":
                return "proved", name, None
            if s == "sat" and m is not None and name == "z3" and fn is steps[-1][1]:
                return "failed", name, m
            if s == "sat" and m is not None:
                model = m
        return ("failed" if model is not None else "unknown"), "portfolio", model

    def quick(self, facts, goal):
        """one incremental solver for the obligations of a path: they share most of their facts"""
        ids = [f.get_id() for f in facts]
        n = len(self.inc_ids)
        if self.inc is None or ids[:n] != self.inc_ids:
            self.inc = z3.Solver()
            self.inc.set("timeout", 200)
            self.inc.set("arith.nl.grobner", False)
            self.inc_facts, n = [], 0
        if len(ids) > n:
            self.inc.add(*facts[n:])
            self.inc_facts.extend(facts[n:])        # (keeps the ids alive)
        self.inc_ids = ids
        self.inc.push()
        try:
            self.inc.add(z3.Not(goal))
            return self.inc.check() == z3.unsat
        finally:
            self.inc.pop()

    def dedup(self, facts):
        out, seen = [], set()
        st = list(reversed(facts))
        while st:
            f = st.pop()
            if z3.is_and(f):
                st.extend(reversed(f.children()))
                continue
            if f.get_id() in seen or z3.is_true(f):
                continue
            seen.add(f.get_id())
            out.append(f)
        return out

    def consts(self, e, acc=None, seen=None):
        acc = set() if acc is None else acc
        st = [e]
        seen = set() if seen is None else seen
        while st:
            x = st.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                acc.add(x.get_id())
            elif z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                acc.add(x.get_id())
            st.extend(x.children())
        return acc

    def relevant(self, facts, goal, depth=6):
        cs = [(f, self.consts(f)) for f in facts]
        want = self.consts(goal)
        pick = set()
        for _ in range(depth):
            n = len(pick)
            for i, (f, c) in enumerate(cs):
                if i not in pick and c & want and (len(c - want) <= 2):
                    pick.add(i)
            for i in pick:
                want |= cs[i][1]
            if len(pick) == n:
                break
        return [cs[i][0] for i in sorted(pick)]

    def nonlinear(self, es):
        st = list(es)
        seen = set()
        while st:
            x = st.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if z3.is_app(x):
                k = x.decl().kind()
                if k == z3.Z3_OP_MUL and sum(0 if (z3.is_int_value(c) or z3.is_rational_value(c)) else 1 for c in x.children()) > 1:
                    return True
                if k in (z3.Z3_OP_DIV, z3.Z3_OP_IDIV, z3.Z3_OP_MOD) and not (z3.is_int_value(x.arg(1)) or z3.is_rational_value(x.arg(1))):
                    return True
                if k == z3.Z3_OP_POWER:
                    return True
            st.extend(x.children())
        return False

    def z3_check(self, facts, goal, sec):
        s = z3.Solver()
        s.set("timeout", int(sec * 1000))
        for f in facts:
            s.add(f)
        s.add(z3.Not(goal))
        r = s.check()
        if r == z3.unsat:
            return "unsat", None
        if r == z3.sat:
            return "sat", s.model()
        return "unknown", None

    # -- polynomial normal form + nlsat -----------------------------------
    def poly_formula(self, ctx, f, facts, signs):
        """translate boolean formula to polynomial atoms over fresh reals; None if impossible"""
        k = f.decl().kind() if z3.is_app(f) else None
        if z3.is_true(f) or z3.is_false(f):
            return f
        if z3.is_not(f):
            return z3.Not(self.poly_formula(ctx, f.arg(0), facts, signs))
        if z3.is_and(f):
            return z3.And([self.poly_formula(ctx, c, facts, signs) for c in f.children()])
        if z3.is_or(f):
            return z3.Or([self.poly_formula(ctx, c, facts, signs) for c in f.children()])
        if k == z3.Z3_OP_IMPLIES:
            return z3.Implies(self.poly_formula(ctx, f.arg(0), facts, signs), self.poly_formula(ctx, f.arg(1), facts, signs))
        if k in (z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_LT, z3.Z3_OP_GT, z3.Z3_OP_EQ, z3.Z3_OP_DISTINCT):
            a, b = f.arg(0), f.arg(1)
            if z3.is_bool(a):
                if k == z3.Z3_OP_EQ:
                    return self.poly_formula(ctx, a, facts, signs) == self.poly_formula(ctx, b, facts, signs)
                raise Timeout("bool")
            p = self.poly_atom(ctx, a, b, facts, signs, k in (z3.Z3_OP_EQ, z3.Z3_OP_DISTINCT))
            t = self.poly_term(ctx, p)
            z = z3.RealVal(0)
            return {z3.Z3_OP_LE: lambda: t <= z, z3.Z3_OP_GE: lambda: t >= z, z3.Z3_OP_LT: lambda: t < z,
                    z3.Z3_OP_GT: lambda: t > z, z3.Z3_OP_EQ: lambda: t == z, z3.Z3_OP_DISTINCT: lambda: t != z}[k]()
        raise Timeout("formula kind")

    def poly_atom(self, ctx, a, b, facts, signs, iseq):
        """polynomial p with  (a op b) <=> (p op 0)"""
        n1, d1 = rf(ctx, a)
        n2, d2 = rf(ctx, b)
        l, m1, m2 = lcm_parts(d1, d2)
        n = p_add(p_mul(n1, den_poly(m1)), p_mul(n2, den_poly(m2)), -1)
        if iseq:
            return n
        n, l = cancel(n, l)
        for kk, (p, e) in l.items():
            if e % 2 == 0:
                continue
            s = self.sign(ctx, p, kk, facts, signs)
            if s == 0:
                n = p_mul(n, p)
            elif s < 0:
                n = {m: -c for m, c in n.items()}
        return n

    def sign(self, ctx, p, kk, facts, signs):
        if kk in signs:
            return signs[kk]
        t = self.poly_term(ctx, p, orig=True)
        r = 0
        for s, g in ((1, t > 0), (-1, t < 0)):
            st, _ = self.z3_check(facts, g, 0.7)
            if st == "unsat":
                r = s
                break
        signs[kk] = r
        return r

    def poly_term(self, ctx, p, orig=False):
        ts = []
        for m, c in p.items():
            t = z3.RealVal(c)
            for v, e in m:
                a = self.atomvar(ctx, v, orig)
                for _ in range(e):
                    t = t * a
            ts.append(t)
        return z3.Sum(ts) if ts else z3.RealVal(0)

    def atomvar(self, ctx, v, orig):
        e = ctx.atoms[v]
        if orig:
            return z3.ToReal(e) if z3.is_int(e) else e
        return z3.Real(f"a_{v}")

    def poly_check(self, facts, goal, sec, subset):
        ctx = PolyCtx()
        signs = {}
        s = z3.Tactic("qfnra-nlsat").solver() if True else z3.Solver()
        s.set("timeout", int(sec * 1000))
        g = self.poly_formula(ctx, goal, facts, signs)
        gs = z3.simplify(g, som=True)
        if z3.is_true(gs):
            return "unsat", None
        dropped = 0
        for f in (subset if subset is not None else facts):
            try:
                s.add(z3.simplify(self.poly_formula(ctx, f, facts, signs), som=True))
            except Timeout:
                dropped += 1
        s.add(z3.Not(gs))
        r = s.check()
        if r == z3.unsat:
            return "unsat", None
        if r == z3.sat:
            m = s.model()
            return "sat", PolyModel(m, ctx)
        return "unknown", None

    # -- products of hypotheses ------------------------------------------------
    def products(self, facts, goal, rel):
        if not (z3.is_app(goal) and goal.decl().kind() in (z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_LT, z3.Z3_OP_GT, z3.Z3_OP_EQ)
                and not z3.is_bool(goal.arg(0))):
            if z3.is_not(goal):
                return self.products(facts, _neg(goal.arg(0)), rel)
            return "unknown", None
        k = goal.decl().kind()
        if k == z3.Z3_OP_EQ:
            s1, _ = self.products(facts, goal.arg(0) <= goal.arg(1), rel)
            if s1 != "unsat":
                return s1, None
            return self.products(facts, goal.arg(0) >= goal.arg(1), rel)
        ctx = PolyCtx()
        signs = {}

        def norm(f, acc):
            """collect (poly, kind) meaning poly >= 0 / > 0 / == 0"""
            if z3.is_and(f):
                for c in f.children():
                    norm(c, acc)
                return
            neg = False
            if z3.is_not(f):
                f = f.arg(0)
                neg = True
            kk = f.decl().kind() if z3.is_app(f) else None
            if kk not in (z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_LT, z3.Z3_OP_GT, z3.Z3_OP_EQ) or z3.is_bool(f.arg(0)):
                return
            if neg and kk == z3.Z3_OP_EQ:
                return
            try:
                p = self.poly_atom(ctx, f.arg(0), f.arg(1), facts, signs, kk == z3.Z3_OP_EQ)
            except Timeout:
                return
            if len(p) > 60:
                return
            allint = all(z3.is_int(ctx.atoms[v]) for m in p for v, _ in m)
            if neg:
                kk = {z3.Z3_OP_LE: z3.Z3_OP_GT, z3.Z3_OP_GE: z3.Z3_OP_LT, z3.Z3_OP_LT: z3.Z3_OP_GE, z3.Z3_OP_GT: z3.Z3_OP_LE}[kk]
            np = {m: -c for m, c in p.items()}
            if kk == z3.Z3_OP_EQ:
                acc.append((p, "=="))
            elif kk == z3.Z3_OP_LE:
                acc.append((np, ">="))
            elif kk == z3.Z3_OP_GE:
                acc.append((p, ">="))
            elif kk == z3.Z3_OP_LT:
                acc.append((np, ">"))
            else:
                acc.append((p, ">"))
            # integer strictness
            if acc[-1][1] == ">" and allint and all(c.denominator == 1 for c in acc[-1][0].values()):
                q = p_add(acc[-1][0], p_const(1), -1)
                acc.append((q, ">="))

        hyps = []
        for f in rel:
            norm(f, hyps)
        gh = []
        norm(z3.Not(goal), gh)
        hyps = hyps[:70]
        # signs of the variables the other hypotheses imply
        t1 = time.time()
        have = {p_key(p): kd for p, kd in hyps}
        for v in sorted(set(v for p, _ in hyps for m in p for v, _ in m)):
            one = {((v, 1),): Fraction(1)}
            kd = have.get(p_key(one))
            if kd == ">" or time.time() - t1 > 5:
                continue
            t = self.atomvar(ctx, v, True)
            small = [f for f in rel if len(str(f)) < 200][:60]
            if kd is None and self.z3_check(small, t >= 0, 0.4)[0] == "unsat":
                kd = ">="
                hyps.append((one, ">="))
            if kd == ">=" and self.z3_check(small, t > 0, 0.3)[0] == "unsat":
                hyps.append((one, ">"))
                if z3.is_int(ctx.atoms[v]):
                    hyps.append((p_add(one, p_const(1), -1), ">="))
        H = [h for h in hyps + gh if h[0]]
        # multipliers: hypotheses that are single variables >= 0, plus all small hypotheses
        mult = []
        seen = set()
        for p, kd in H:
            if kd != "==" and len(p) <= 4 and p_key(p) not in seen:
                seen.add(p_key(p))
                mult.append((p, kd))
        allv = set(v for p, _ in H for m in p for v, _ in m)
        prods = [(p, kd) for p, kd in H]
        t0 = time.time()
        for p, kd in H:
            if kd == "==":
                for v in allv:
                    prods.append((p_mul(p, {((v, 1),): Fraction(1)}), "=="))
                continue
            for q, kq in mult:
                if time.time() - t0 > 8 or len(prods) > 3500:
                    break
                try:
                    r = p_mul(p, q)
                except Timeout:
                    continue
                if len(r) > 80:
                    continue
                prods.append((r, ">" if kd == ">" and kq == ">" else ">="))
        s = z3.SolverFor("QF_LRA")
        s.set("timeout", 8000)
        mv = {}

        def lin(p):
            ts = []
            for m, c in p.items():
                if m == ():
                    ts.append(z3.RealVal(c))
                    continue
                if m not in mv:
                    mv[m] = z3.Real(f"m{len(mv)}")
                ts.append(z3.RealVal(c) * mv[m])
            return z3.Sum(ts) if ts else z3.RealVal(0)
        for p, kd in prods:
            t = lin(p)
            s.add(t >= 0 if kd == ">=" else t > 0 if kd == ">" else t == 0)
        for m, v in mv.items():
            if all(e % 2 == 0 for _, e in m):
                s.add(v >= 0)
        r = s.check()
        return ("unsat", None) if r == z3.unsat else ("unknown", None)

    def cvc5_check(self, facts, goal, sec):
        try:
            import cvc5
        except Exception:
            return "unknown", None
        s = z3.Solver()
        for f in facts:
            s.add(f)
        s.add(z3.Not(goal))
        smt = s.to_smt2()
        import subprocess, shutil, tempfile, os
        exe = shutil.which("cvc5")
        if not exe:
            return "unknown", None
        with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as fh:
            fh.write("(set-logic ALL)\n" + smt)
            fn = fh.name
        try:
            out = subprocess.run([exe, f"--tlimit={int(sec*1000)}", fn], capture_output=True, text=True, timeout=sec + 5).stdout.strip()
        except subprocess.TimeoutExpired:
            out = "unknown"
        finally:
            os.unlink(fn)
        return ("unsat" if out.startswith("unsat") else "unknown"), None


def _neg(f):
    k = f.decl().kind()
    a, b = f.arg(0), f.arg(1)
    return {z3.Z3_OP_LE: lambda: a > b, z3.Z3_OP_GE: lambda: a < b, z3.Z3_OP_LT: lambda: a >= b,
            z3.Z3_OP_GT: lambda: a <= b}.get(k, lambda: z3.Not(f))()


class PolyModel:
    """model of the relaxed problem, indexable by original constants"""
    def __init__(self, m, ctx):
        self.m, self.ctx = m, ctx
        self.byname = {}
        for i, e in ctx.atoms.items():
            if z3.is_const(e):
                v = m.eval(z3.Real(f"a_{i}"), model_completion=True)
                self.byname[e.decl().name()] = v

    def value(self, const):
        return self.byname.get(const.decl().name())


def model_value(m, const):
    v = m.value(const) if isinstance(m, PolyModel) else m.eval(const, model_completion=True)
    if v is None:
        return None
    if z3.is_int_value(v):
        return v.as_long()
    if z3.is_rational_value(v):
        r = Fraction(v.numerator_as_long(), v.denominator_as_long())
        return r if not z3.is_int(const) else int(r)
    if z3.is_algebraic_value(v):
        a = v.approx(20)
        r = Fraction(a.numerator_as_long(), a.denominator_as_long())
        return r
    return None
