"""Arbitrage and routing optimisers over constant-product curves (carbon/tools/optimizer.py)."""
from pyvc.api import contract, fn_contract

M = "carbon.tools.optimizer:"
OB = M + "OptimizerBase"
O = M + "CPCArbOptimizer"
K = "carbon.tools.cpc:"
CPC = K + "ConstantProductCurve"
CC = K + "CPCContainer"
TI = O + ".TradeInstruction"
SFC = O + ".SelfFinancingConstraints"


def vec(c, items):
    return c.call("numpy:array", c.lift(list(items)))


# ------------------------------------------------------------------------------------------------ N01: numerical helpers and trade instructions
@contract("N01", functions=[OB + ".goalseek"], samples=300)
def goal_seek_brackets_a_zero(c):
    """for any function: the value found is a zero or no further than the precision from a change of sign within the interval; same signs at the ends are refused"""
    a = c.real("a", rng=(-10, 10), log=False)
    b = a + c.real("w", gt=0, rng=(1e-3, 10))
    z = 0
    if not c.symbolic:
        kind = c.choice("f", ["line", "cubic", "step", "ends"])
        w = c.choice("where", [0, 1, .5, .25, -.1, 1.1, "any", "any"])
        z = c.real("z", rng=(-10, 10), log=False) if w == "any" else a + w * (b - a)
        s = c.choice("s", [1, -1])

        def f(x):
            return s * (x - z) if kind == "line" else s * (x - z) * (x * x + 1) if kind == "cubic" else (s if x >= z else -s)
    else:
        def f(x):
            return c.uf("f", x)
    eps = c.const(OB + ".GOALSEEKEPS")
    last = {}

    def inv(c, st):
        last.clear()
        last.update(st.nums)
        out = []
        for u in st.nums:
            out.append((f"{u} grows", st.nums[u] >= st.nums0[u]))
            out.append((f"{u} falls", st.nums[u] <= st.nums0[u]))
            for v in st.nums:
                if u != v:
                    out.append((f"{u}<={v}", st.nums[u] <= st.nums[v]))
                    out.append((f"sign {u} {v}", f(st.nums[u]) * f(st.nums[v]) <= 0))
                    out.append((f"{u} = f({v})", c.eq(st.nums[u], f(st.nums[v]))))
        return out
    if c.symbolic:
        c.loop_invariant(inv)
    out = c.try_(OB + ".goalseek", c.func(f, "f"), a, b)
    if c.split(f(a) * f(b) > 0):
        c.ensure("refused", out.raised("ValueError"))
        return
    c.ensure("found", out.ok)
    if not out.ok:
        return
    c.ensure("not an error", c.attr(out.value, "is_error") is False)
    r = c.attr(out.value, "result")
    c.ensure("inside", c.And(r >= a, r <= b))
    if c.symbolic:
        def near(u, v):
            return c.And(u <= r, r <= v, v - u <= eps, f(u) * f(v) <= 0)
        c.ensure("a zero", c.Or(c.eq(f(r), 0), near(a, b), *[near(last[u], last[v]) for u in last for v in last if u != v]))
    else:
        c.ensure("a zero", f(r) == 0 or f(max(a, r - eps)) * f(min(b, r + eps)) <= 0)


@contract("N01", functions=[OB + ".deriv", OB + ".deriv2", OB + ".findminmax_nr", OB + ".findmin_gd", OB + ".findmax_gd", OB + ".SimpleResult"], samples=200)
def derivatives_and_extrema_of_parabolas(c):
    """derivatives of parabolas are exact, Newton's method hits their extremum, gradient steps go downhill (uphill) along the derivative; a failed search is an error, never a number"""
    p2 = c.choice("sign", [1, -1]) * c.real("a", gt=0, rng=(.1, 10))
    p1, p0, x = c.real("b", rng=(-10, 10), log=False), c.real("c", rng=(-10, 10), log=False), c.real("x", rng=(-10, 10), log=False)
    f = c.func(lambda v: p2 * v * v + p1 * v + p0, "f")
    c.ensure("first derivative", c.eq(c.call(OB + ".deriv", f, x), 2 * p2 * x + p1, scale=100, tol=1e-5))
    c.ensure("second derivative", c.eq(c.call(OB + ".deriv2", f, x), 2 * p2, scale=1e5, tol=1e-4))
    n = c.choice("N", [1, 2]) if c.symbolic else 20
    for how in ("findminmax_nr", "findmin", "findmax"):
        r = c.call(OB + "." + how, f, x, N=n)
        c.ensure(how + " found", c.attr(r, "is_error") is False)
        c.ensure(how, c.eq(c.attr(r, "result") * 2 * p2, -1 * p1, scale=100, tol=1e-3))
        c.ensure("as a number", c.eq(c.meth(r, "__float__"), c.attr(r, "result")))
    lr = c.rational(1, 100)
    for how, s in (("findmin_gd", -1), ("findmax_gd", 1)):
        r = c.call(OB + "." + how, f, x, learning_rate=lr, N=1)
        c.ensure(how, c.eq(c.attr(r, "result"), x + s * lr * (2 * p2 * x + p1), scale=100, tol=1e-5))
        two = c.call(OB + "." + how, f, x, learning_rate=lr, N=2)
        again = c.call(OB + "." + how, f, c.attr(r, "result"), learning_rate=lr, N=1)
        c.ensure(how + " steps", c.eq(c.attr(two, "result"), c.attr(again, "result"), scale=100, tol=1e-5))
    flat = c.call(OB + ".findminmax_nr", c.func(lambda v: 5 if c.symbolic else 5.0, "g"), x)
    c.ensure("no extremum", c.attr(flat, "is_error") is True and c.attr(flat, "result") is None)
    c.ensure("no number", c.try_meth(flat, "__float__").raised("ValueError"))


@contract("N01", functions=[O + ".jacobian"], samples=200)
def jacobian_of_affine_maps(c):
    """the Jacobian of an affine map is its matrix, at any point, for any step"""
    n = c.choice("n", [1, 2, 3])
    a = [[c.real(f"a{i}{j}", rng=(-5, 5), log=False) for j in range(n)] for i in range(n)]
    b = [c.real(f"b{i}", rng=(-5, 5), log=False) for i in range(n)]
    x = [c.real(f"x{i}", rng=(-5, 5), log=False) for i in range(n)]
    k = c.choice("x0", ["zero", "tiny", "any"])
    x[0] = 0 if k == "zero" else x[0] * c.rational(1, 10 ** 15) if k == "tiny" else x[0]

    def f(v):
        v = [c.item(v, i) for i in range(n)]
        return vec(c, [sum(a[i][j] * v[j] for j in range(n)) + b[i] for i in range(n)])
    if not c.symbolic:
        for v in x:
            c.assume(k != "any" and v is x[0] or abs(v) > 1e-2)
    kw = {}
    if c.choice("eps?", [True, False]):
        kw["eps"] = c.real("eps", gt=0, rng=(1e-4, 1e-2))
    jac = c.call(O + ".jacobian", c.func(f, "f"), vec(c, x), **kw)
    for i in range(n):
        for j in range(n):
            c.ensure(f"J{i}{j}", c.eq(c.item(c.item(jac, i), j), a[i][j], scale=100, tol=1e-5))


@contract("N01", functions=[OB + ".posx", OB + ".negx"], samples=100)
def positive_and_negative_parts(c):
    """posx and negx split a vector into its positive and negative parts"""
    n = c.choice("n", [1, 2, 3])
    b = [c.real(f"b{i}", rng=(-5, 5), log=False) for i in range(n)]
    as_ = c.choice("as", ["array", "tuple", "list"])
    v = vec(c, b) if as_ == "array" else c.lift(b) if as_ == "list" else tuple(b)
    pos, neg = c.items(c.call(OB + ".posx", v)), c.items(c.call(OB + ".negx", v))
    c.ensure("lengths", len(pos) == len(neg) == n)
    for i in range(n):
        c.ensure("parts", c.And(pos[i] >= 0, neg[i] <= 0, c.eq(pos[i] + neg[i], b[i]), c.Or(c.eq(pos[i], 0), c.eq(neg[i], 0))))


@contract("N01", functions=[TI + ".__post_init__", TI + ".new", TI + ".is_empty", TI + ".to_dicts", TI + ".to_format"], samples=300)
def trade_instructions(c):
    """what goes into the AMM is positive and what comes out negative, whatever the order given; amounts of the same sign are refused unless negligible"""
    a1, a2 = c.real("a1", rng=(-10, 10), log=False), c.real("a2", rng=(-10, 10), log=False)
    z = c.choice("zero", ["none", "first", "second", "both", "tiny"])
    a1 = 0 if z in ("first", "both") else a1
    a2 = 0 if z in ("second", "both") else a2
    if z == "tiny":
        a1, a2 = a1 * c.rational(1, 10 ** 10), a2 * c.rational(1, 10 ** 10)
    curve = c.call(CPC + ".from_pk", p=2, k=100, pair="ETH/USDC", cid="c7")
    arg = curve if c.choice("curve", [True, False]) else "c7"
    kw = {"eps": c.rational(1, 100)} if c.choice("eps", [True, False]) else {}
    if c.choice("same token", [False, False, True]):
        c.ensure("same token refused", c.try_(TI + ".new", arg, "ETH", a1, "ETH", a2).raised("AssertionError"))
        return
    out = c.try_(TI + ".new", arg, "ETH", a1, "USDC", a2, **kw)
    lim = c.rational(1, 10 ** 8)

    def ab(v):
        return c.If(v < 0, -1 * v, v)
    if not c.split(a1 * a2 < 0):
        if c.split(c.And(ab(a1) < lim, ab(a2) < lim)):
            c.ensure("negligible", out.ok)
            t = out.value
            c.ensure("empty", c.And(c.eq(c.attr(t, "amtin"), 0), c.eq(c.attr(t, "amtout"), 0)) and c.attr(t, "is_empty") is True)
        else:
            c.ensure("refused", out.raised("ValueError"))
        return
    c.ensure("accepted", out.ok)
    t = out.value
    into = c.split(a1 > 0)
    c.ensure("tokens", (c.attr(t, "tknin"), c.attr(t, "tknout")) == (("ETH", "USDC") if into else ("USDC", "ETH")))
    c.ensure("amounts", c.And(c.eq(c.attr(t, "amtin"), a1 if into else a2), c.eq(c.attr(t, "amtout"), a2 if into else a1)))
    c.ensure("signs", c.And(c.attr(t, "amtin") > 0, c.attr(t, "amtout") < 0))
    c.ensure("not empty", c.Not(c.attr(t, "is_empty")))
    c.ensure("curve", c.attr(t, "cid") == "c7" and (c.same(c.attr(t, "curve"), curve) if arg is curve else c.attr(t, "curve") is None))
    d = dict(c.dict_items(c.items(c.call(TI + ".to_dicts", c.lift([t])))[0]))
    c.ensure("record", sorted(d) == ["amtin", "amtout", "cid", "tknin", "tknout"] and c.And(*[c.pyeq(d[k], c.attr(t, k)) for k in d]))
    f = c.items(c.call(TI + ".to_format", c.lift([t, t])))
    c.ensure("as objects", len(f) == 2 and c.same(f[0], t) and c.same(f[1], t))
    f = c.items(c.call(TI + ".to_format", c.lift([t]), "dicts"))
    c.ensure("as dicts", len(f) == 1 and sorted(dict(c.dict_items(f[0]))) == sorted(d))


@contract("N01", functions=[SFC + "." + m for m in ("__post_init__", "optimizationvar", "tokens_s", "tokens_l", "asdict", "items", "new", "arb", "get", "is_constraint", "is_optimizationvar",
                                                    "is_arbsfc", "__call__")], samples=200)
def self_financing_constraints(c):
    """exactly one token is optimised; every other token of the problem is constrained to the amount given, or zero; tokens outside the problem are refused"""
    ov = c.const(SFC + "." + c.choice("ov", ["OptimizationVar", "AMMPays", "AMMReceives", "OV"]))
    amt = 0 if c.choice("zero", [True, False]) else c.real("amt", rng=(-10, 10), log=False)
    toks = c.choice("tokens", ["str", "list", "none"])
    t = {"str": "ETH, USDC ,LINK", "list": c.lift(["LINK", "ETH", "USDC", "ETH"]), "none": None}[toks]
    bad = c.choice("bad", [None, None, "two", "no", "token"])
    data = {"USDC": ov, "ETH": amt}
    if bad == "two":
        data["ETH"] = c.const(SFC + ".OptimizationVar")
    elif bad == "no":
        data["USDC"] = 5
    elif bad == "token":
        data["BNT"] = 1
    how = c.choice("how", ["init", "new"])
    out = c.try_(SFC, data=c.lift(data), tokens=t) if how == "init" else c.try_(SFC + ".new", t, **data)
    if bad in ("two", "no") or bad == "token" and t is not None:
        c.ensure("refused", out.raised("AssertionError"))
        return
    c.ensure("accepted", out.ok)
    s = out.value
    all_ = sorted(set(data) | ({"LINK"} if t is not None else set()))
    c.ensure("tokens", c.items(c.attr(s, "tokens_l")) == all_ and c.attr(s, "tokens_s") == ", ".join(all_))
    c.ensure("variable", c.attr(s, "optimizationvar") == "USDC")
    d, short = dict(c.dict_items(c.meth(s, "asdict"))), dict(c.dict_items(c.meth(s, "asdict", short=True)))
    c.ensure("all", sorted(d) == all_ and sorted(short) == sorted(data))
    for k in all_:
        want = data.get(k, 0)
        c.ensure(k, c.pyeq(d[k], want) and c.pyeq(c.meth(s, "get", k), want) and c.pyeq(c.meth(s, "__call__", k), want))
        c.ensure("variable or constraint " + k, c.meth(s, "is_optimizationvar", k) is (k == "USDC") and c.meth(s, "is_constraint", k) is (k != "USDC"))
    c.ensure("unknown token", c.try_meth(s, "get", "XYZ").raised("AssertionError") and c.try_meth(s, "is_optimizationvar", "XYZ").raised("AssertionError"))
    other = 1 if bad == "token" else 0
    c.ensure("arbitrage iff nothing else is wanted", c.meth(s, "is_arbsfc") == (other == 0 and not c.split(amt != 0)))
    a = c.call(SFC + ".arb", "WBTC")
    c.ensure("arb", c.attr(a, "optimizationvar") == "WBTC" and c.meth(a, "is_arbsfc") is True)


# ------------------------------------------------------------------------------------------------ N02: the optimisers
CUR = {}                      # what the contract that runs knows about the curves, for the obligations at calls of goalseek


def fresh(c, name):
    from pyvc.values import SymNum
    import z3
    return SymNum(z3.Real(c.path.fresh_name(name)))


def trade_at(c, self, p, ignorebounds, withunits):
    """the trade of a curve that moves it to a price: any amounts of opposite sign, a function of curve and price (K01 proves the formula)"""
    if p is None:
        p = c.attr(self, "p")
    n = f"{c.attr(self, 'cid')}_{bool(ignorebounds)}"
    dx, dy = c.uf("dx_" + n, p), c.uf("dy_" + n, p)
    c.assume(c.Or(c.And(dx > 0, dy < 0), c.And(dx < 0, dy > 0), c.And(c.eq(dx, 0), c.eq(dy, 0))))
    r = (dx, dy, p)
    return r + (c.attr(self, "tknx"), c.attr(self, "tkny"), c.attr(self, "pair")) if withunits else r


fn_contract(CPC + ".dxdyfromp_f", ["self", "p", "ignorebounds", "withunits"], trade_at, pre=lambda c, *a: [], post=lambda c, *a: [])


def goal_result(c, cls, func, a, b, eps):
    p = fresh(c, "goal")
    c.assume(c.And(p > a, p < b))
    CUR["goal"] = c.I.call(func, [p])
    return c.call(OB + ".SimpleResult", result=p, method="goalseek")


def nr_result(c, cls, func, x0, N):
    if c.path.choose(2):
        return c.call(OB + ".SimpleResult", result=None, errormsg="failed")
    p = fresh(c, "extremum")
    c.assume(p > 0)
    CUR["max"] = c.I.call(func, [p])
    return c.call(OB + ".SimpleResult", result=p, method="nr")


fn_contract(OB + ".goalseek", ["cls", "func", "a", "b", "eps"], goal_result, pre=lambda c, *a: [("interval", a[2] < a[3])], post=lambda c, *a: [])
fn_contract(OB + ".findminmax_nr", ["cls", "func", "x0", "N"], nr_result, pre=lambda c, *a: [], post=lambda c, *a: [])


def any_jacobian(c, cls, func, x, eps):
    n = len(c.items(x))
    return vec(c, [[fresh(c, "J") for _ in range(n)] for _ in range(n)])


fn_contract(O + ".jacobian", ["cls", "func", "x", "eps"], any_jacobian, pre=lambda c, *a: [], post=lambda c, *a: [])
CURVE = CPC + ".dxdyfromp_f"


def market(c, pairs):
    """a container of unlevered curves on the pairs given"""
    cs = []
    for i, pr in enumerate(pairs):
        cs.append(c.call(CPC + ".from_pk", p=c.real(f"p{i}", gt=0, rng=(1, 10)), k=c.real(f"k{i}", gt=0, rng=(100, 10000)), pair=pr, cid=f"c{i}"))
    return cs


def primary_trades(c, cs, pairs, p):
    """per curve the (ETH, USDC) amounts of the trade to the price p of ETH in USDC"""
    out = []
    for o, pr in zip(cs, pairs):
        if pr == "ETH/USDC":
            dx, dy, _ = c.items(c.meth(o, "dxdyfromp_f", p))
        else:
            dy, dx, _ = c.items(c.meth(o, "dxdyfromp_f", c.div(1, p)))
        out.append((dx, dy))
    return out


SIMPLE = [("ETH/USDC", "ETH/USDC"), ("ETH/USDC", "USDC/ETH"), ("USDC/ETH", "USDC/ETH"), ("ETH/USDC",), ("USDC/ETH", "ETH/USDC", "ETH/USDC")]
T = 1e-6


@contract("N02", functions=[O + ".simple_optimizer", O + ".__init__"], samples=200, summaries=[CURVE])
def aggregate_trades_at_a_price(c):
    """the trades, their sum and its value in either token at any price are those of the curves, all seen in the primary direction of the pair"""
    pairs = c.choice("pairs", SIMPLE)
    cs = market(c, pairs)
    o = c.call(O, c.lift(cs) if c.choice("raw", [True, False]) else c.call(CC, c.lift(cs)))
    s = c.real("s", gt=0, rng=(.3, 4))
    p = s * s
    want = primary_trades(c, cs, pairs, p)
    sx, sy = sum(x for x, y in want), sum(y for x, y in want)
    scale = None if c.symbolic else sum(abs(x) + abs(y) for x, y in want) * (1 + p + 1 / p)
    f = c.meth(o, "simple_optimizer", result=c.const(O + ".SO_DXDYVECFUNC"))
    v = c.items(c.call(f, p))
    c.ensure("one per curve", len(v) == len(cs))
    for t, (dx, dy) in zip(v, want):
        t = c.items(t)
        c.ensure("trade", len(t) == 2 and c.And(c.eq(t[0], dx, scale=scale, tol=T), c.eq(t[1], dy, scale=scale, tol=T)))
    t = c.items(c.call(c.meth(o, "simple_optimizer", result=c.const(O + ".SO_DXDYSUMFUNC")), p))
    c.ensure("sum", c.And(c.eq(t[0], sx, scale=scale, tol=T), c.eq(t[1], sy, scale=scale, tol=T)))
    c.ensure("value in USDC", c.eq(c.call(c.meth(o, "simple_optimizer", result=c.const(O + ".SO_DXDYVALYFUNC")), p), sx * p + sy, scale=scale, tol=T))
    c.ensure("value in ETH", c.eq(c.call(c.meth(o, "simple_optimizer", result=c.const(O + ".SO_DXDYVALXFUNC")), p) * p, sx * p + sy, scale=scale, tol=T))


RES = O + ".SimpleOptimizerResult"


@contract("N02", functions=[O + ".simple_optimizer"] + [RES + "." + m for m in ("__post_init__", "is_error", "dxvalues", "dyvalues", "dxdy_vec", "dxdy_sum", "dxdy_valx", "dxdy_valy", "trade_instructions", "tknx",
                                                                             "tkny", "pair", "detailed_error")],
          samples=200, weight=5, split=24, summaries=[CURVE, OB + ".goalseek", OB + ".findminmax_nr"], max_paths=1500)
def simple_optimiser_reports_the_trades_at_its_price(c):
    """for a target token the price is where the other token nets to zero, and the result is what is left of the target token; without one it is the value at the price found;
    reported trades, sums and instructions are those of the curves at the reported price; failures are reported, not raised"""
    pairs = c.choice("pairs", SIMPLE[:4])
    cs = market(c, pairs)
    o = c.call(O, c.lift(cs))
    target = c.choice("target", ["ETH", "USDC", None])
    kw = {}
    if c.choice("explicit", [True, False]):
        kw["result"] = c.const(O + (".SO_GLOBALMAX" if target is None else ".SO_TARGETTKN"))
    out = c.try_meth(o, "simple_optimizer", **({} if target is None else {"targettkn": target}), **kw)
    c.ensure("no exception", out.ok)
    r = out.value
    if c.attr(r, "is_error"):
        c.ensure("only the maximum can fail", target is None)
        c.ensure("error", c.attr(r, "result") is None and c.attr(r, "p_optimal") is None and c.attr(r, "error") is not None)
        return
    p = c.attr(r, "p_optimal")
    want = primary_trades(c, cs, pairs, p)
    sx, sy = sum(x for x, y in want), sum(y for x, y in want)
    scale = None if c.symbolic else sum(abs(x) + abs(y) for x, y in want) * (1 + p + 1 / p) + 1e-9
    c.ensure("result", c.eq(c.attr(r, "result") * (p if target is None else 1), sx if target == "ETH" else sy if target == "USDC" else sx * p + sy, scale=scale, tol=T))
    if c.symbolic:
        if target is not None:
            c.ensure("goal", c.eq(CUR["goal"], sy if target == "ETH" else sx))
        else:
            c.ensure("maximum of the value", c.eq(CUR["max"] * p, sx * p + sy))
    elif target is not None:
        k = 1 if target == "ETH" else 0
        d = 2e-6
        c.ensure("the other token nets to zero at the price", sum(x[k] for x in primary_trades(c, cs, pairs, p - d)) * sum(x[k] for x in primary_trades(c, cs, pairs, p + d)) <= 0)
    c.ensure("tokens", (c.attr(r, "tknx"), c.attr(r, "tkny"), c.attr(r, "pair"), c.attr(r, "is_error")) == ("ETH", "USDC", "ETH/USDC", False))
    for nm, k in (("dxvalues", 0), ("dyvalues", 1)):
        v = c.items(c.attr(r, nm))
        c.ensure(nm, len(v) == len(cs) and c.And(*[c.eq(a, w[k], scale=scale, tol=T) for a, w in zip(v, want)]))
    t = c.items(c.attr(r, "dxdy_sum"))
    c.ensure("sum", c.And(c.eq(t[0], sx, scale=scale, tol=T), c.eq(t[1], sy, scale=scale, tol=T)))
    c.ensure("value", c.And(c.eq(c.attr(r, "dxdy_valy"), sx * p + sy, scale=scale, tol=T), c.eq(c.attr(r, "dxdy_valx") * p, sx * p + sy, scale=scale, tol=T)))
    if not c.symbolic and any(abs(x) < 1e-9 * q or abs(y) < 1e-9 * q for (x, y), q in zip(want, [scale] * 9)):
        return
    instructions(c, c.items(c.meth(r, "trade_instructions")), [(f"c{i}", "ETH", x, "USDC", y) for i, (x, y) in enumerate(want)], scale)


def instructions(c, tis, want, scale=None):
    """one instruction per curve that trades, with its amounts"""
    want = [w for w in want if c.split(c.Or(w[2] > 0, w[2] < 0))]
    c.ensure("one instruction per trade", len(tis) == len(want))
    for t, (cid, tx, x, ty, y) in zip(tis, want):
        into = c.split(x > 0)
        c.ensure("instruction", (c.attr(t, "cid"), c.attr(t, "tknin"), c.attr(t, "tknout")) == ((cid, tx, ty) if into else (cid, ty, tx)))
        c.ensure("amounts of the instruction", c.And(c.eq(c.attr(t, "amtin"), x if into else y, scale=scale, tol=T), c.eq(c.attr(t, "amtout"), y if into else x, scale=scale, tol=T)))


@contract("N02", functions=[O + ".simple_optimizer"], samples=40, summaries=[CURVE, OB + ".goalseek", OB + ".findminmax_nr"])
def simple_optimiser_refusals(c):
    """curves on several pairs, no curves, foreign tokens and contradictory requests are refused"""
    bad = c.choice("bad", ["pairs", "none", "token", "target missing", "target given", "unknown"])
    o = c.call(O, c.lift(market(c, {"pairs": ["ETH/USDC", "LINK/USDC"], "none": []}.get(bad, ["ETH/USDC", "USDC/ETH"]))))
    kw = {"token": dict(targettkn="LINK"), "target missing": dict(result=c.const(O + ".SO_TARGETTKN")), "target given": dict(targettkn="ETH", result=c.const(O + ".SO_GLOBALMAX")),
          "unknown": dict(result="xyz")}.get(bad, {})
    c.ensure("refused", c.try_meth(o, "simple_optimizer", **kw).raised(*(["ValueError", "IndexError"] if bad == "unknown" else ["AssertionError"])))


MULTI = [("ETH/USDC", "ETH/USDC"), ("ETH/USDC", "USDC/ETH"), ("ETH/USDC", "LINK/ETH", "LINK/USDC"), ("USDC/ETH", "LINK/ETH", "ETH/USDC", "USDC/LINK")]


def flows(c, cs, pairs, prices):
    """net amount per token and the trades per curve when every curve moves to the cross price"""
    net, trades = {}, []
    for o, pr in zip(cs, pairs):
        b, q = pr.split("/")
        dx, dy, _ = c.items(c.meth(o, "dxdyfromp_f", c.div(prices[b], prices[q])))
        trades.append((dx, dy))
        net[b] = net.get(b, 0) + dx
        net[q] = net.get(q, 0) + dy
    return net, trades


@contract("N02", functions=[O + ".margp_optimizer"], samples=200, weight=2, summaries=[CURVE])
def net_flows_at_any_prices(c):
    """at any prices (in the target token) the net flow of each token is the sum over all curves of their trades to the cross price"""
    pairs = c.choice("pairs", MULTI)
    cs = market(c, pairs)
    o = c.call(O, c.lift(cs))
    target = c.choice("target", ["ETH", "USDC"])
    f = c.meth(o, "margp_optimizer", target, result=c.const(O + ".MO_DTKNFROMPF"))
    dbg = dict(c.dict_items(c.meth(o, "margp_optimizer", target, result=c.const(O + ".MO_DEBUG"))))
    toks = list(c.items(dbg["tokens_t"]))
    c.ensure("all other tokens", sorted(toks + [target]) == sorted({t for p in pairs for t in p.split("/")}))
    prices = {t: c.real("price_" + t, gt=0, rng=(.5, 2)) for t in sorted(toks)}
    prices[target] = 1
    net, trades = flows(c, cs, pairs, prices)
    scale = None if c.symbolic else sum(abs(x) + abs(y) for x, y in trades)
    p = [prices[t] for t in toks]
    as_ = c.choice("as", ["array", "list"])
    d, v = c.items(c.call(f, vec(c, p) if as_ == "array" else c.lift(p), islog10=False, asdct=True))
    d, v = dict(c.dict_items(d)), c.items(v)
    c.ensure("tokens", sorted(d) == sorted(prices) and len(v) == len(toks))
    for t in d:
        c.ensure("net flow", c.eq(d[t], net[t], scale=scale, tol=T))
    for t, x in zip(toks, v):
        c.ensure("vector", c.eq(x, net[t], scale=scale, tol=T))
    w = c.items(c.call(f, vec(c, p), islog10=False))
    c.ensure("vector only", len(w) == len(v) and c.And(*[c.eq(a, b, scale=scale, tol=T) for a, b in zip(v, w)]))


MRES = O + ".MargpOptimizerResult"


@contract("N02", functions=[O + ".margp_optimizer"] + [MRES + "." + m for m in ("__post_init__", "is_error", "price", "dxdyvalues", "dxvalues", "dyvalues", "trade_instructions")],
          samples=100, weight=4, budget=120, summaries=[CURVE, O + ".jacobian"], max_paths=3000, split=12)
def marginal_price_optimiser_reports_the_trades_at_its_prices(c):
    """whatever the solver does: the reported flows, trades and instructions are those of the curves at the reported prices; the result is the net flow of the target token;
    a search that does not converge is an error"""
    pairs = c.choice("pairs", MULTI[:3])
    cs = market(c, pairs)
    o = c.call(O, c.lift(cs))
    target = c.choice("target", ["ETH", "USDC"])
    all_ = sorted({t for p in pairs for t in p.split("/")})
    params = {}
    start = c.choice("start", ["given", "estimated"])
    if start == "given":
        params["pstart"] = {t: c.real("start_" + t, gt=0, rng=(.5, 2)) for t in all_ if t != target}
    how = c.choice("how", ["str", "minimal", "object"] if start == "given" else ["str"])
    few = len(pairs) > 2 or start != "given" or how == "object"
    params["maxiter"] = c.choice("maxiter", ([1] if few else [1, 2]) if c.symbolic else [1, 2, 50])
    minimal = how == "minimal"
    sfc = c.call(SFC + ".arb", target) if how == "object" else target
    out = c.try_meth(o, "margp_optimizer", sfc, params=c.lift(params), **({"result": c.const(O + ".MO_MINIMAL")} if minimal else {}))
    c.ensure("no exception", out.ok)
    r = out.value
    n = c.attr(r, "n_iterations")
    c.ensure("iterations", n < params["maxiter"])
    toks = c.items(c.attr(r, "tokens_t"))
    c.ensure("tokens", sorted(toks) == [t for t in all_ if t != target] and c.attr(r, "targettkn") == target)
    if c.attr(r, "is_error"):
        c.ensure("error", all(c.attr(r, a) is None for a in ("result", "p_optimal", "p_optimal_t", "dtokens", "dtokens_t")) and n == params["maxiter"] - 1 and c.attr(r, "error") is not None)
        return
    p = c.items(c.attr(r, "p_optimal_t"))
    c.ensure("one price per token", len(p) == len(toks))
    prices = dict(zip(toks, p))
    c.ensure("prices are positive", c.And(*[x > 0 for x in p]))
    c.assume(c.And(*[x > 0 for x in p]))
    prices[target] = 1
    net, trades = flows(c, cs, pairs, prices)
    scale = None if c.symbolic else sum(abs(x) + abs(y) for x, y in trades) + sum(c.attr(o_, a) for o_ in cs for a in ("x", "y"))
    c.ensure("result", c.eq(c.attr(r, "result"), net[target], scale=scale, tol=T))
    for t, x in zip(toks, c.items(c.attr(r, "dtokens_t"))):
        c.ensure("flow", c.eq(x, net[t], scale=scale, tol=T))
        if not c.symbolic:
            c.ensure("other tokens net to zero", abs(x) < 1e-3 * scale)
    if minimal:
        c.ensure("no big fields", all(c.attr(r, a) is None for a in ("curves", "p_optimal", "dtokens")))
        return
    d = dict(c.dict_items(c.attr(r, "dtokens")))
    c.ensure("flows", sorted(d) == all_ and c.And(*[c.eq(d[t], net[t], scale=scale, tol=T) for t in d]))
    po = dict(c.dict_items(c.attr(r, "p_optimal")))
    c.ensure("prices", sorted(po) == sorted(toks) and c.And(*[c.eq(po[t], prices[t]) for t in po]))
    for a in all_:
        for b in all_:
            c.ensure("cross price", c.eq(c.meth(r, "price", a, b) * prices[b], prices[a]))
    for nm, k in (("dxvalues", 0), ("dyvalues", 1)):
        v = c.items(c.attr(r, nm))
        c.ensure(nm, len(v) == len(cs) and c.And(*[c.eq(x, w[k], scale=scale, tol=T) for x, w in zip(v, trades)]))
    v = dict(c.dict_items(c.meth(r, "dxdyvalues", asdict=True)))
    c.ensure("by id", sorted(v) == [f"c{i}" for i in range(len(cs))])
    for i, w in enumerate(trades):
        x = c.items(v[f"c{i}"])
        c.ensure("trade by id", c.And(c.eq(x[0], w[0], scale=scale, tol=T), c.eq(x[1], w[1], scale=scale, tol=T)))
    if not c.symbolic and any(abs(x) < 1e-9 * scale or abs(y) < 1e-9 * scale for x, y in trades) or c.symbolic and (few or params["maxiter"] > 1):
        return
    instructions(c, c.items(c.meth(r, "trade_instructions")), [(f"c{i}", pr.split("/")[0], x, pr.split("/")[1], y) for i, (pr, (x, y)) in enumerate(zip(pairs, trades))], scale)


@contract("N02", functions=[CC + ".price_estimate", CC + ".price_estimates", O + ".price_estimates", CC + ".tokentable", CPC + ".at_boundary"], samples=200, weight=2)
def price_estimates_average_both_directions(c):
    """the estimate of a price is the average over the curves between the two tokens, in either direction, weighted by the square root of k, without those at the end of their range;
    no curves, no price"""
    pairs = c.choice("pairs", [("ETH/USDC", "USDC/ETH", "LINK/ETH"), ("ETH/USDC", "LINK/USDC", "ETH/USDC")])
    cs = []
    edge = c.choice("edge", [None, 0, 1])
    data = []
    for i, pr in enumerate(pairs):
        x, y = c.real(f"x{i}", gt=0, rng=(10, 100)), c.real(f"y{i}", gt=0, rng=(10, 100))
        kw = {} if edge != i else {"y_act": 0, "x_act": x / 2}
        cs.append(c.call(CPC, k=x * y, x=x, pair=pr, cid=f"c{i}", **kw))
        data.append((pr, x, y, c.sqrt(x * y), edge == i))
    cc = c.call(CC, c.lift(cs))

    def sums(b, q):
        num = den = 0
        for pr, x, y, w, out in data:
            if not out and pr in (b + "/" + q, q + "/" + b):
                num = num + w * (c.div(y, x) if pr == b + "/" + q else c.div(x, y))
                den = den + w
        return num, den
    for b in ("ETH", "USDC", "LINK"):
        for q in ("ETH", "USDC"):
            num, den = sums(b, q)
            r = c.try_meth(cc, "price_estimate", tknq=q, tknb=b)
            if b == q:
                c.ensure("itself", r.ok and r.value == 1)
            elif isinstance(den, int):
                c.ensure("none", r.raised("ValueError") and c.meth(cc, "price_estimate", pair=b + "/" + q, raiseonerror=False) is None)
            else:
                c.ensure("average", r.ok and c.eq(r.value * den, num))
                c.ensure("same by pair", c.eq(c.meth(cc, "price_estimate", pair=b + "/" + q), r.value))
    o = c.call(O, cc)
    es = c.try_meth(o, "price_estimates", tknq="USDC", tknbs=("USDC", "ETH"))
    num, den = sums("ETH", "USDC")
    if isinstance(den, int):
        c.ensure("missing", es.raised("ValueError"))
    else:
        v = c.items(es.value)
        c.ensure("estimates", len(v) == 2 and c.And(c.eq(v[0], 1), c.eq(v[1] * den, num)))
    tt = dict(c.dict_items(c.meth(cc, "tokentable")))
    c.ensure("tokens", sorted(tt) == ["ETH", "LINK", "USDC"])
    for t in tt:
        c.ensure("where the token is", list(c.items(c.attr(tt[t], "x"))) == [i for i, p in enumerate(pairs) if p.split("/")[0] == t]
                 and list(c.items(c.attr(tt[t], "y"))) == [i for i, p in enumerate(pairs) if p.split("/")[1] == t])


@contract("N02", functions=[O + ".adjust_curves", CPC + ".execute"], samples=200, weight=2, max_paths=1500)
def adjusted_curves_have_traded(c):
    """adjusting the curves trades each of them by its amount: same k, x moved, everything else as it was; the original curves do not change"""
    pairs = c.choice("pairs", [("ETH/USDC",), ("ETH/USDC", "LINK/ETH")])
    cs = market(c, pairs)
    cc = c.call(CC, c.lift(cs))
    o = c.call(O, cc)
    snap = c.snapshot(cc)
    xs = [c.attr(v, "x") for v in cs]
    dx = [c.real(f"d{i}", rng=(-1, 3), log=False) * x for i, x in enumerate(xs)]
    for d, x in zip(dx, xs):
        c.assume(x + d > (0 if c.symbolic else 1e-3 * x))
    as_ = c.choice("as", ["tuple", "array", "none"])
    if as_ == "none":
        c.ensure("nothing to do", c.meth(o, "adjust_curves", None) is None and c.try_meth(o, "adjust_curves", None, raiseonerror=True).raised("ValueError"))
        return
    n = c.meth(o, "adjust_curves", tuple(dx) if as_ == "tuple" else vec(c, dx))
    c.ensure("done", n is not None)
    v = c.items(c.attr(n, "curves"))
    c.ensure("as many", len(v) == len(cs))
    for a, b, d, x in zip(cs, v, dx, xs):
        k = c.attr(a, "k")
        c.ensure("moved", c.And(c.eq(c.attr(b, "x"), x + d), c.eq(c.attr(b, "k"), k), c.eq(c.attr(b, "y") * (x + d), k)))
        c.ensure("same pair", c.attr(b, "pair") == c.attr(a, "pair"))
        c.ensure("booked", c.And(c.eq(c.attr(b, "x_act"), x + d), c.eq(c.attr(b, "y_act") * (x + d), k)))
    c.ensure("originals unchanged", c.unchanged(snap, c.snapshot(cc)))


NRES = O + ".NofeesOptimizerResult"


@contract("N02", functions=[O + ".nofees_optimizer", NRES + ".__post_init__", NRES + ".dxvalues", NRES + ".dyvalues", NRES + ".dxdydf", O + ".ConvexOptimizerResult.is_error", O + ".SFC", O + ".SFCd", O + ".SFCa",
                            M + "ScaledVariable.value"], samples=25, weight=3, budget=60, max_paths=1500)
def convex_optimum_is_feasible(c):
    """whatever point the solver picks: no curve pays out more than it has or loses invariant, and every token except the target nets to the amount asked for, zero by default"""
    pairs = c.choice("pairs", [("ETH/USDC", "ETH/USDC"), ("ETH/USDC", "USDC/ETH"), ("ETH/USDC", "LINK/ETH", "LINK/USDC")])
    cs, lim = [], []
    for i, pr in enumerate(pairs):
        lev = c.choice(f"lev{i}", [False, True]) if i == 0 else False
        x = c.real(f"x{i}", gt=0, rng=(50, 100))
        y = c.real(f"y{i}", gt=0, rng=(50, 100))
        fx, fy = (c.real(f"fx{i}", gt=0, lt=1, rng=(.3, .9)), c.real(f"fy{i}", gt=0, lt=1, rng=(.3, .9))) if lev else (1, 1)
        cs.append(c.call(CPC, k=x * y, x=x, pair=pr, cid=f"c{i}", **({"x_act": x * fx, "y_act": y * fy} if lev else {})))
        lim.append((x, y, x * fx, y * fy))
    scale = {"ETH": 100, "USDC": 2, "LINK": 10} if c.choice("scaled", [False, True]) else {}     # the optimizer works in dollars, the answers are in tokens
    o = c.call(O, c.call(CC, c.lift(cs), tokenscale=c.call("carbon.tools.tokenscale:TokenScale.from_tokenscales", **scale)) if scale else c.lift(cs))
    target = c.choice("target", ["USDC", "ETH"])
    other = "ETH" if target == "USDC" else "USDC"
    how = c.choice("how", ["str", "SFCa", "arb", "SFC", "SFCd"])
    amt = 0
    ov = c.const(O + "." + c.choice("ov", ["OV", "AMMPays"]))
    if how == "str":
        sfc = target
    elif how == "SFCa":
        sfc = c.meth(o, "SFCa", target)
    elif how == "arb":
        sfc = c.call(SFC + ".arb", target)
    else:
        amt = c.real("amt", rng=(-.1, .1), log=False)
        sfc = c.meth(o, "SFC", **{target: ov, other: amt}) if how == "SFC" else c.meth(o, "SFCd", c.lift({target: ov, other: amt}))
    r = c.meth(o, "nofees_optimizer", sfc, solver="ECOS")
    if c.attr(r, "is_error"):
        return
    dx, dy = c.items(c.attr(r, "dxvalues")), c.items(c.attr(r, "dyvalues"))
    c.ensure("one per curve", len(dx) == len(dy) == len(cs))
    tol = 1e-4
    for a, b, (x, y, xa, ya) in zip(dx, dy, lim):
        c.ensure("invariant", c.ge((x + a) * (y + b), x * y, scale=x * y, tol=tol))
        c.ensure("liquidity", c.And(c.ge(a, -1 * xa, scale=x, tol=tol), c.ge(b, -1 * ya, scale=y, tol=tol)))
    net = {}
    for pr, a, b in zip(pairs, dx, dy):
        bs, q = pr.split("/")
        net[bs] = net.get(bs, 0) + a
        net[q] = net.get(q, 0) + b
    for t in net:
        if t == target:
            c.ensure("result", c.eq(c.attr(r, "result"), net[t] * (scale[t] if scale else 1), scale=10000, tol=tol))
        else:
            c.ensure("nets to what was asked for", c.eq(net[t], amt if t == other else 0, scale=100, tol=tol))
    if not c.symbolic and how in ("str", "SFCa", "arb"):
        c.ensure("arbitrage never costs", net[target] <= 1e-2)
    recs = c.items(c.meth(r, "dxdydf", asdict=True))
    for rec, pr, a, b, i in zip(recs, pairs, dx, dy, range(9)):
        d = dict(c.dict_items(rec))
        bs, q = pr.split("/")
        c.ensure("table", d["cid"] == f"c{i}" and d["pair"] == pr and c.And(c.eq(d[bs], a), c.eq(d[q], b)))
