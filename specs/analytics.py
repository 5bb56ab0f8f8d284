"""Order book analytics (carbon/simulators/sim_analytics.py): A01;  parameter objects and token scales (carbon/tools/params.py, tokenscale.py), uint256 range checks: P01."""
from pyvc.api import contract

M = "carbon.simulators.sim_analytics:"
A = M + "Analytics"
OB = M + "OrderBook"
ORD = "carbon.pair:CarbonPair"


def nums(c, name, n, **kw):
    return [c.real(f"{name}{i}", **kw) for i in range(n)]


def vals(c, s):
    return list(c.items(s))


def alleq(c, what, got, exp):
    got = vals(c, got)
    c.ensure(what + ": length", len(got) == len(exp))
    c.ensure(what, c.And(*[c.eq(a, b) for a, b in zip(got, exp)]) if exp else True)


@contract("A01", functions=[A + ".midpoints", A + ".diff", A + ".vec", A + ".vecdot", A + ".linspace0", A + ".linspace", OB + ".midpoints", OB + ".reverse"], samples=200)
def vectors(c):
    """midpoints, differences, sumproducts and linearly spaced vectors are what they say, for any numbers"""
    n = c.choice("n", [1, 2, 3, 5])
    xs, ys = nums(c, "x", n, rng=(-10, 10), log=False), nums(c, "y", n, rng=(-10, 10), log=False)
    v, w = c.call(A + ".vec", c.lift(xs)), c.call(A + ".vec", c.lift(ys))
    alleq(c, "vector", v, xs)
    alleq(c, "midpoints", c.call(A + ".midpoints", v), [(a + b) / 2 for a, b in zip(xs, xs[1:])])
    alleq(c, "midpoints of the order book", c.call(OB + ".midpoints", v), [(a + b) / 2 for a, b in zip(xs, xs[1:])])
    alleq(c, "differences", c.call(A + ".diff", v), [b - a for a, b in zip(xs, xs[1:])])
    c.ensure("sumproduct", c.eq(c.call(A + ".vecdot", v, w), sum(a * b for a, b in zip(xs, ys)), tol=1e-7))
    miss = c.choice("missing", list(range(n)))
    m = c.call(A + ".vec", c.lift([None if i == miss else y for i, y in enumerate(ys)])) if n > 1 else w
    c.ensure("missing values count as zero", c.eq(c.call(A + ".vecdot", v, m), sum(a * b for i, (a, b) in enumerate(zip(xs, ys)) if i != miss or n == 1), tol=1e-7))
    for x in xs:
        c.assume(c.Or(x > (0 if c.symbolic else 1e-3), x < (0 if c.symbolic else -1e-3)))
    r = vals(c, c.call(OB + ".reverse", v))
    c.ensure("reciprocals", len(r) == n and c.And(*[c.eq(a * x, 1) for a, x in zip(r, xs)]))
    xmax = c.real("xmax", gt=0, rng=(1, 1e4))
    k = c.choice("nint", [None, 2, 3, 7])
    kw = {} if k is None else {"nint": k}
    k = k or 10
    eps, eps2 = c.choice("eps", [None, .001]), c.choice("eps2", [None, .01])
    if eps is not None:
        kw["eps"] = eps
    if eps2 is not None:
        kw["eps2"] = eps2
    e1, e2 = c.rational(1, 10000) if eps is None else c.rational(1, 1000), c.rational(1, 100000) if eps2 is None else c.rational(1, 100)
    alleq(c, "from about zero to about the maximum", c.call(A + ".linspace0", xmax, **kw), [e1] + [xmax * i / k for i in range(1, k)] + [(1 - e2) * xmax])
    lo = c.real("lo", rng=(-5, 5), log=False)
    alleq(c, "linearly spaced", c.call(A + ".linspace", lo, lo + xmax, k + 1), [lo + xmax * i / k for i in range(k + 1)])


@contract("A01", functions=[A + ".truncate", A + ".isnonenan"], samples=200)
def truncation_keeps_pairs(c):
    """truncating drops exactly the missing values at the end; every remaining amount is still next to its own trade size"""
    n = c.choice("n", [0, 1, 3, 4])
    xs, ys = nums(c, "x", n, rng=(0, 10)), nums(c, "y", n, rng=(0, 10))
    gone = [c.choice(f"gone{i}", [False, "none", "nan"]) if i in (0, 1, n - 1) else False for i in range(n)]
    nan = float("nan")
    ys = [None if g == "none" else nan if g == "nan" else y for y, g in zip(ys, gone)]
    for y, g in zip(ys, gone):
        c.ensure("missing", c.call(A + ".isnonenan", y) is bool(g))
    c.ensure("other values are not missing", c.call(A + ".isnonenan", "x") is False and c.call(A + ".isnonenan", 0) is False)
    a, b = c.items(c.call(A + ".truncate", c.lift(xs), c.lift(ys)))
    while gone and gone[-1]:
        gone.pop()
    a, b = vals(c, a), vals(c, b)
    c.ensure("same length", len(a) == len(gone) and len(b) == len(gone))
    c.ensure("trade sizes", c.And(*[c.eq(x, y) for x, y in zip(a, xs)]) if a else True)
    for y, g, z in zip(b, gone, ys):
        c.ensure("amounts", c.call(A + ".isnonenan", y) if g else c.eq(y, z))


def frame(c, what, df, cols):
    c.ensure(what + ": columns", vals(c, c.attr(df, "columns")) == [n for n, _ in cols])
    for n, v in cols:
        got = vals(c, c.item(df, n))
        c.ensure(what + ": rows", len(got) == max(len(x) for _, x in cols))
        c.ensure(what + ": values", c.And(*[c.eq(a, b) for a, b in zip(got, v)]))


OBP = [OB + "." + n for n in ("__init__", "base_tkn", "quote_tkn", "explain", "src_token_outin", "trg_token_outin", "amm_buysell_src", "amm_buysell_trg", "amm_bidask", "marg_trg_amounts",
                              "marg_src_amounts", "prices", "pricesr", "marg_prices", "marg_pricesr", "prices_u", "pricesr_u", "ob_liquidity", "dmarg_prices", "ob_liquidity_u",
                              "ob_prices", "data_tokenamount_chart", "data_price_chart", "data_orderbook_chart", "colorba")]


@contract("A01", functions=OBP, samples=200, weight=2)
def order_books(c):
    """an order book derives effective and marginal prices, marginal amounts and liquidity density from the trades, in the units and direction it states, for any trades"""
    n = c.choice("n", [3, 4])
    side = c.choice("side", ["ASK", "BID", "default"])
    steps, outs = nums(c, "s", n, gt=0, rng=(.1, 10)), nums(c, "t", n, gt=0, rng=(.1, 10))
    src, trg = [sum(steps[:i + 1]) for i in range(n)], [sum(outs[:i + 1]) for i in range(n)]
    extra = c.choice("extra", [0, 1])
    names = c.choice("names", [(), ("ETH", "USDC")])
    kw = {} if side == "default" else {"bidask": c.const(OB + "." + side)}
    ob = c.call(OB, c.lift(src + [1] * extra), c.lift(trg + [None] * extra), *names, **kw)
    s, t = names or ("SRC", "TRG")
    bid = side == "BID"
    c.ensure("tokens", c.attr(ob, "base_tkn") == s and c.attr(ob, "quote_tkn") == t)
    c.ensure("direction", c.attr(ob, "src_token_outin") == ("in" if bid else "out") and c.attr(ob, "trg_token_outin") == ("out" if bid else "in")
             and c.attr(ob, "amm_buysell_src") == ("buys" if bid else "sells") and c.attr(ob, "amm_buysell_trg") == ("sells" if bid else "buys")
             and c.attr(ob, "amm_bidask") == ("bid" if bid else "ask") and c.attr(ob, "colorba") == ("g" if bid else "r"))
    c.ensure("units", c.attr(ob, "prices_u") == f"{t} per {s}" and c.attr(ob, "marg_prices_u") == f"{t} per {s}" and c.attr(ob, "ob_prices_u") == f"{t} per {s}"
             and c.meth(ob, "pricesr_u") == f"{s} per {t}" and c.meth(ob, "pricesr_u", False) == f"{t} per {s}" and c.meth(ob, "marg_pricesr_u", reverse=True) == f"{s} per {t}"
             and c.attr(ob, "ob_liquidity_u") == t)
    c.ensure("explanation", c.meth(ob, "explain").split("\n")[:4] == [f"This is the {'BID' if bid else 'ASK'} book.", f"Source token = {s}, target token = {t}.",
                                                                   f"AMM {'buys' if bid else 'sells'} {s} for {t}.", f"Base token = {s}, quote token = {t}."])
    alleq(c, "trade sizes", c.attr(ob, "src_amounts"), src)
    alleq(c, "amounts", c.attr(ob, "trg_amounts"), trg)
    alleq(c, "marginal sizes", c.attr(ob, "marg_src_amounts"), steps[1:])
    alleq(c, "marginal amounts", c.attr(ob, "marg_trg_amounts"), outs[1:])
    p, m = [c.div(b, a) for a, b in zip(src, trg)], [c.div(b, a) for a, b in zip(steps[1:], outs[1:])]
    alleq(c, "effective prices", c.attr(ob, "prices"), p)
    alleq(c, "marginal prices", c.attr(ob, "marg_prices"), m)
    for rev in (True, False):
        alleq(c, "effective prices, either way", c.meth(ob, "pricesr", rev), [c.div(a, b) if rev else c.div(b, a) for a, b in zip(src, trg)])
        alleq(c, "marginal prices, either way", c.meth(ob, "marg_pricesr", rev), [c.div(a, b) if rev else c.div(b, a) for a, b in zip(steps[1:], outs[1:])])
        d = c.meth(ob, "data_price_chart", *(() if not rev else (True,)))
        for k in ("x1", "size1"):
            alleq(c, "sizes in the price chart", c.item(d, k), src)
        for k in ("y1", "price1_eff"):
            alleq(c, "effective prices in the price chart", c.item(d, k), [c.div(a, b) if rev else c.div(b, a) for a, b in zip(src, trg)])
        for k in ("x2", "size2"):
            alleq(c, "midpoints in the price chart", c.item(d, k), [(a + b) / 2 for a, b in zip(src, src[1:])])
        for k in ("y2", "price2_marg"):
            alleq(c, "marginal prices in the price chart", c.item(d, k), [c.div(a, b) if rev else c.div(b, a) for a, b in zip(steps[1:], outs[1:])])
        c.ensure("labels of the price chart", c.item(d, "ammm_buysell_src") == ("buys" if bid else "sells") and c.item(d, "size_unit") == s
                 and c.item(d, "prices_unit") == (f"{s} per {t}" if rev else f"{t} per {s}"))
    d = c.meth(ob, "data_tokenamount_chart")
    for k, e in (("x", src), ("src", src), ("y", trg), ("trg", trg)):
        alleq(c, "amount chart", c.item(d, k), e)
    c.ensure("units of the amount chart", c.item(d, "src_unit") == s and c.item(d, "trg_unit") == t)
    f = c.meth(ob, "data_tokenamount_chart", aspandas=True)
    frame(c, "amount chart", f, [(f"src_amt [{s}]", src), (f"trg_amt [{t}]", trg)])
    rev = c.choice("rev", [True, False])
    sz = (src, [(a + b) / 2 for a, b in zip(src, src[1:])])
    pr = [[c.div(a, b) if rev else c.div(b, a) for a, b in zip(*z)] for z in ((src, trg), (steps[1:], outs[1:]))]
    u = f"{s} per {t}" if rev else f"{t} per {s}"
    f = c.meth(ob, "data_price_chart", rev, aspandas=True)
    frame(c, "price chart", f, [(f"size1 [{s}]", sz[0]), (f"price1_eff [{u}]", pr[0]), (f"size2 [{s}]", sz[1]), (f"price2_marg [{u}]", pr[1])])
    sg = -1 if bid else 1
    dm = [sg * (b - a) for a, b in zip(m, m[1:])]
    alleq(c, "steps of the marginal price", c.attr(ob, "dmarg_prices"), dm)
    mp = [(a + b) / 2 for a, b in zip(m, m[1:])]
    alleq(c, "prices of the book", c.attr(ob, "ob_prices"), mp)
    for x in dm:
        c.assume(c.Or(x > (0 if c.symbolic else 1e-2), x < (0 if c.symbolic else -1e-2)))
    liq = [c.div((a + b) / 2, x) for a, b, x in zip(outs[1:], outs[2:], dm)]
    alleq(c, "liquidity", c.attr(ob, "ob_liquidity"), liq)
    d = c.meth(ob, "data_orderbook_chart")
    for k, e in (("x", liq), ("liquidity", liq), ("y", mp), ("prices", mp)):
        alleq(c, "order book chart", c.item(d, k), e)
    c.ensure("units of the order book chart", c.item(d, "liquidity_unit") == t and c.item(d, "prices_unit") == f"{t} per {s}")
    f = c.meth(ob, "data_orderbook_chart", aspandas=True)
    frame(c, "order book chart", f, [(f"Price [{t} per {s}]", mp), (f"Liquidity [{t}]", liq)])
    c.ensure("a book has a side", c.try_(OB, c.lift(src), c.lift(trg), bidask="amm_buys").raised("ValueError"))


class Sim:
    """a simulator that answers trades as it is told and notes what it was asked"""
    def __init__(self, c, name, pair, ok):
        self.c, self.asked = c, []
        self.a1, self.a2, self.p = (c.real(f"{name}{k}", gt=0, rng=(1, 100)) for k in ("a", "b", "p"))

        def trade(what):
            def f(tkn, amt, execute=True, pair=None, **kw):
                self.asked.append((what, tkn, amt, execute, pair, tuple(kw)))
                if not ok:
                    return c.lift({"success": False, "error": "no liquidity"})
                rows = [{"amt1": 2, "amt2": 3, "price": 5, "aggr": False}, {"amt1": self.a1, "amt2": self.a2, "price": self.p, "aggr": True}]
                return c.lift({"success": True, "trades": c.call("pandas:Series", c.lift(rows))})
            return f
        cp = c.call(ORD, pair) if pair else None
        tk = pair.split("/") if pair else (None, None)
        self.o = c.record(amm_sells=c.func(trade("sells"), "amm_sells"), amm_buys=c.func(trade("buys"), "amm_buys"), carbon_pair=cp, slashpair=pair,
                          default_basetoken=tk[0], default_quotetoken=tk[1])


@contract("A01", functions=[A + ".effective_price", A + ".simulate_trades", A + ".__init__"], samples=200, max_paths=3000)
def simulated_trades_ask_the_simulator(c):
    """simulated trades are quoted, never executed, on the simulator and pair given (or the defaults), in the direction asked; the result is the aggregate's other amount (or its price)"""
    ok = c.choice("ok", [True, False])
    pair, pair2 = c.choice("pair", ["ETH/USDC", "LINK/ETH", None]), c.choice("pair2", ["WBTC/ETH", None])
    s1, s2 = Sim(c, "s", pair, ok), Sim(c, "z", pair2, ok)
    own = c.choice("own", [True, False])
    a = c.call(A, s1.o if own else None)
    given = c.choice("given", [True, False])
    s = s2 if given else s1 if own else None
    kw = {"sim": s2.o} if given else {}
    size = c.real("size", gt=0, rng=(1, 100))
    side = c.choice("side", ["sells", "buys"])
    what = c.choice("what", ["trg", "price", "price, other constant", "illegal"])
    cp = c.choice("explicit", ["BNT/USDC", None])
    slash = cp or (None if s is None else pair2 if given else pair)
    base = slash.split("/")[0] if slash else None
    if what == "illegal":
        if s is not None and slash:
            k2 = dict(kw)
            c.ensure("sides are buy and sell", c.try_meth(a, "simulate_trades", size, "sell", carbon_pair=c.call(ORD, slash), **k2).raised("ValueError"))
            c.ensure("sides are bid and ask", c.try_meth(a, "effective_price", size, "sell", tkn=base, pair=slash, **k2).raised("ValueError"))
            c.ensure("pairs are pairs", c.try_meth(a, "simulate_trades", size, c.const(A + ".ASK"), carbon_pair=slash, **k2).raised("ValueError"))
            c.ensure("nothing asked", s.asked == [])
        return
    if what == "trg":
        if cp and s is None:
            return
        if cp:
            kw["carbon_pair"] = c.call(ORD, cp)
        side_c = c.const(A + (".AMM_SELLS_BASETOKEN" if side == "sells" else ".AMM_BUYS_BASETOKEN"))
        c.ensure("constants", c.const(A + (".ASK" if side == "sells" else ".BID")) == side_c)
        out = c.try_meth(a, "simulate_trades", size, side_c, **kw)
        exp = None if not ok else s.a2 if s and side == "sells" else s.a1 if s else None
    else:
        if cp and s is None:
            return
        if cp:
            kw["pair"], kw["tkn"] = cp, base
        c1 = c.const(A + ("." + ("ASK" if side == "sells" else "BID") + ("_BOOK" if what == "price" else "")))
        out = c.try_meth(a, "effective_price", size, c1, **kw)
        exp = (s.p if ok else 0 if side == "sells" else c.const(A + ".MAXPRICE")) if s else None
    if slash is None:
        c.ensure("a simulator with a pair is needed", out.raised("ValueError"))
        c.ensure("nobody asked", s1.asked == [] and s2.asked == [])
        return
    c.ensure("answered", out.ok)
    c.ensure("asked once", len(s.asked) == 1 and (s1 if s is s2 else s2).asked == [])
    q = s.asked[0]
    c.ensure("asked that", q[0] == side and q[1] == base and q[3] is False and q[4] == slash and q[5] == ())
    c.ensure("for that size", c.eq(q[2], size))
    c.ensure("answer", out.value is None if exp is None else c.eq(out.value, exp))


@contract("A01", functions=[OB + ".calc_liquidity_approx"], samples=200, max_paths=3000)
def approximate_liquidity_is_the_sum_of_the_curves(c):
    """the approximate liquidity in each price interval is the sum over the curves of that pair selling the base token (ask) or the quote token (bid), per unit of price"""
    n = c.choice("n", [2, 3])
    p0 = c.real("p0", gt=0, rng=(1, 10))
    ps = [p0]
    for i in range(n):
        ps.append(ps[-1] + c.real(f"step{i}", gt=0, rng=(.1, 10)))
    pair = c.call(ORD, "ETH/USDC")
    lay = c.choice("curves", [(), (("ETH/USDC", "ETH"), ("ETH/USDC", "USDC"), ("LINK/USDC", "USDC"), ("ETH/USDC", "ETH"), ("WBTC/ETH", "ETH")), (("ETH/USDC", "ETH"), ("ETH/LINK", "ETH"))])
    cs = {}
    asked = []

    def liq(k):
        def f(a, b, tkn=None, asperc=False):
            asked.append((tkn, asperc))
            return k * (b * b - a * a) * (2 if tkn == "ETH" else 3)
        return f
    ks = []
    for i, (pr, tk) in enumerate(lay):
        k = c.real(f"k{i}", lo=0, rng=(0, 10), log=False)
        ks.append(k)
        cs[i] = c.record(pair=c.call(ORD, pr), tkn=tk, liquidity_approx=c.func(liq(k), "liquidity_approx"))
    kw = {}
    rev = c.choice("reverse", [None, True, False])
    if rev is not None:
        kw["reverse"] = rev
    rev = rev is not False
    purge = c.choice("purge", [None, False])
    if purge is not None:
        kw["purgezero"] = purge
    r = c.call(OB + ".calc_liquidity_approx", c.lift(cs), c.lift(ps), pair, **kw)
    f = 3 if rev else 2
    for side, tk in (("ask", "ETH"), ("bid", "USDC")):
        v = vals(c, c.item(r, side))
        c.ensure("one per interval", len(v) == n)
        for a, b, x in zip(ps, ps[1:], v):
            exp = sum([k * (a + b) * f for k, (pr, t) in zip(ks, lay) if pr == "ETH/USDC" and t == tk])
            if x is None:
                c.ensure("nothing there", purge is None and c.eq(exp, 0))
            else:
                c.ensure("liquidity per unit of price", c.eq(x, exp, tol=1e-6))
                c.ensure("no zeroes unless wanted", True if purge is False else c.Not(c.eq(x, 0, tol=0)))
    alleq(c, "prices", c.item(r, "prices"), [(a + b) / 2 for a, b in zip(ps, ps[1:])])
    c.ensure("in the right token", all(t == ("USDC" if rev else "ETH") and not q for t, q in asked))
    c.ensure("labels", c.item(r, "price_u") == "USDC per ETH" and c.item(r, "liqtkn_u") == ("USDC" if rev else "ETH") and c.item(r, "reverse") is rev and c.same(c.item(r, "pair"), pair))
    c.ensure("pairs are pairs", c.try_(OB + ".calc_liquidity_approx", c.lift(cs), c.lift(ps), "ETH/USDC").raised("ValueError"))


# ------------------------------------------------------------------------------------------------ P01: parameters, token scales, uint256 checks, versions
PA = "carbon.tools.params:Params"
PAM = [PA + "." + n for n in ("__init__", "construct", "add", "get_default", "set_default", "params", "defaults", "set", "__getitem__", "__setitem__", "__getattr__")]
KEYS = ("a", "b", "z")


@contract("P01", functions=PAM, samples=400, max_paths=8000, weight=3)
def parameters_and_defaults(c):
    """a parameter object returns what was set, then the default, then nothing ([]) or an error (attribute); setting an existing item is refused unless explicitly allowed"""
    vs = {k: c.real("v" + k, rng=(0, 9)) for k in ("a", "b")}
    ds = {k: c.real("d" + k, rng=(0, 9)) for k in ("b", "z")}
    how = c.choice("how", ["init", "construct", "copy", "copy with defaults", "empty", "copy of defaults", "set_default", "set_default twice"])
    orig = None
    if how == "init":
        p, ev, ed = c.call(PA, **vs), dict(vs), {}
    elif how == "construct":
        p, ev, ed = c.call(PA + ".construct", c.lift(dict(vs)), c.lift(dict(ds))), dict(vs), dict(ds)
    elif how == "empty":
        p, ev, ed = c.call(PA + ".construct", *c.choice("none", [(), (None,)])), {}, {}
    elif how == "copy":
        orig = c.call(PA, **vs)
        p, ev, ed = c.call(PA + ".construct", orig), dict(vs), {}
    elif how == "copy of defaults":
        orig = c.call(PA + ".construct", c.lift(dict(vs)), c.lift(dict(ds)))
        p, ev, ed = c.call(PA + ".construct", orig), dict(vs), dict(ds)
        c.ensure("defaults either here or there", c.try_(PA + ".construct", orig, c.lift({"b": 1})).raised("ValueError"))
    elif how == "copy with defaults":
        orig = c.call(PA, **vs)
        p, ev, ed = c.call(PA + ".construct", orig, c.lift(dict(ds))), dict(vs), dict(ds)
    else:
        p, ev, ed = c.call(PA, **vs), dict(vs), {}
        if how == "set_default twice":
            w = c.real("w", rng=(0, 9))
            c.ensure("chained", c.same(c.meth(p, "set_default", b=w), p))
            ed["b"] = w
        c.ensure("chained", c.same(c.meth(p, "set_default", **ds), p))
        ed.update(ds)
    snap = c.snapshot(orig) if orig is not None else None
    x = c.real("x", rng=(10, 19))
    act = c.choice("act", ["none", "setitem", "set", "set once", "add", "defaults"])
    k = c.choice("key", list(KEYS))
    if act == "setitem":
        out = c.try_meth(p, "__setitem__", k, x)
    elif act == "set":
        out = c.try_meth(p, "set", k, x, *c.choice("allow", [(), (True,)]))
    elif act == "set once":
        out = c.try_meth(p, "set", k, x, allowupdate=False)
    elif act == "add":
        out = c.try_meth(p, "add", **{k: x})
    elif act == "defaults":
        out = c.try_meth(p, "set_default", **{k: x})
        ed[k] = x
    if act in ("setitem", "set once", "add") and k in ev:
        c.ensure("no silent change", out.raised("ValueError"))
    elif act not in ("none", "defaults"):
        c.ensure("set", out.ok)
        if act != "setitem":
            c.ensure("chained", c.same(out.value, p))
        ev[k] = x
    for q in KEYS:
        i, at = c.item(p, q), c.try_attr(p, q)
        g, gr = c.meth(p, "get_default", q), c.try_meth(p, "get_default", q, raiseonerror=True)
        if q in ev:
            c.ensure("what was set", at.ok and c.And(c.eq(i, ev[q]), c.eq(at.value, ev[q])))
        elif q in ed:
            c.ensure("the default", at.ok and c.And(c.eq(i, ed[q]), c.eq(at.value, ed[q])))
        else:
            c.ensure("nothing, or an error", i is None and at.raised("KeyError"))
        if q in ed:
            c.ensure("default", gr.ok and c.And(c.eq(g, ed[q]), c.eq(gr.value, ed[q])))
        else:
            c.ensure("no default", g is None and gr.raised("KeyError"))
    c.ensure("all parameters", sorted(k for k, v in c.dict_items(c.attr(p, "params"))) == sorted(ev) and sorted(k for k, v in c.dict_items(c.attr(p, "defaults"))) == sorted(ed))
    if orig is not None:
        if act == "defaults" and how in ("copy", "copy of defaults"):
            o = c.meth(orig, "get_default", k)
            c.ensure("the original keeps its defaults", (o is None) if how == "copy" or k == "a" else c.eq(o, ds[k]))
        elif act != "defaults":
            v = c.item(orig, "a")
            c.ensure("the original keeps its values", c.eq(v, vs["a"]) and c.item(orig, "z") is None if how != "copy of defaults" else True)


TS = "carbon.tools.tokenscale:"


@contract("P01", functions=[TS + "TokenScaleBase.scale", TS + "TokenScaleBase.__call__", TS + "TokenScale._scale", TS + "TokenScale.add_scale", TS + "TokenScale.from_tokenscales", TS + "TokenScale1._scale"], samples=200)
def token_scales(c):
    """every token has a scale: the one given last, or the default of the class; scales are per object; the unit scale is one for every token"""
    a, b, d = (c.real(n, gt=0, rng=(.01, 1e4)) for n in "abd")
    s = c.call(TS + "TokenScale.from_tokenscales", ETH=a, USDC=b)
    t = c.call(TS + "TokenScale", *c.choice("how", [(), (None,)])[:0])
    dflt = c.const(TS + "TokenScaleBase.DEFAULT_SCALE")
    for f in ("scale", "__call__"):
        c.ensure("given", c.And(c.eq(c.meth(s, f, "ETH"), a), c.eq(c.meth(s, f, "USDC"), b), c.eq(c.meth(s, f, "LINK"), dflt), c.eq(c.meth(t, f, "ETH"), dflt)))
    k = c.choice("k", ["ETH", "LINK"])
    c.meth(s, "add_scale", k, d)
    c.ensure("added or replaced", c.And(c.eq(c.meth(s, "scale", k), d), c.eq(c.meth(s, "scale", "USDC"), b), c.eq(c.meth(s, "scale", "ETH"), d if k == "ETH" else a)))
    c.ensure("the other is untouched", c.eq(c.meth(t, "scale", k), dflt))
    c.meth(t, "add_scale", "BNT", a)
    c.ensure("fresh dictionary per object", c.eq(c.meth(c.call(TS + "TokenScale"), "scale", "BNT"), dflt))
    u = c.call(TS + "TokenScale1")
    c.ensure("unit scale", c.And(c.eq(c.meth(u, "scale", k), 1), c.eq(c.meth(u, "__call__", "any"), 1)))
    c.ensure("the base class has none", c.try_meth(c.call(TS + "TokenScaleBase"), "scale", k).raised("NotImplementedError"))


ST = "carbon.helpers.soltest:SolTestBase"


@contract("P01", functions=[ST + "." + n for n in ("__init__", "check_uint256", "raise_f", "print_f", "print_raise_f", "_logmsg", "store_f", "__call__")], samples=400)
def uint256_checks(c):
    """numbers outside the uint256 range or close to its ends are reported, each exactly once, at the right level and side; from the raise level on the matching exception is raised; numbers in range are returned unchanged"""
    top = 2 ** 256
    reg = c.choice("region", ["negative", "tiny", "small", "ok", "big", "over"])
    lo, hi = {"negative": (-top, -1), "tiny": (0, 99), "small": (100, 9999), "ok": (10000, top // 10001), "big": (top // 9999, top - 1), "over": (top, top ** 2)}[reg]
    x = c.int("x", lo=lo, hi=hi)
    lvl = c.choice("raise", ["default", "LVL_WARN", "LVL_ERR", "LVL_NEVER", "LVL_LOG"])
    kw = {} if lvl == "default" else {"raise_lvl": c.const(ST + "." + lvl)}
    o = c.call(ST, **kw)
    log = []

    def note(level, isoverflow, label, msg, context):
        log.append((level, isoverflow, label, context))
    L = {n: c.const(ST + "." + n) for n in ("LVL_LOG", "LVL_WARN", "LVL_ERR")}
    lev, over = {"negative": ("LVL_ERR", True), "tiny": ("LVL_ERR", False), "small": ("LVL_WARN", False), "ok": ("LVL_LOG", False), "big": ("LVL_WARN", True), "over": ("LVL_ERR", True)}[reg]
    r = c.meth(o, "check_uint256", x, "lab", "ctx", c.func(note, "log"))
    c.ensure("reported once", log == [(L[lev], over, "lab", "ctx")])
    c.ensure("the number, or zero", c.eq(r, 0 if reg == "negative" else x))
    for f in ("check_uint256", "__call__"):
        out = c.try_meth(o, f, x, "lab")
        want = {"default": 9, "LVL_WARN": 1, "LVL_ERR": 2, "LVL_NEVER": 9, "LVL_LOG": 0}[lvl]
        if L[lev] < want:
            c.ensure("returned", out.ok and c.eq(out.value, 0 if reg == "negative" else x))
        elif lev == "LVL_LOG":
            c.ensure("nothing to raise", not out.ok)
        else:
            c.ensure("raised", out.raised({("LVL_ERR", True): "OverflowError", ("LVL_ERR", False): "UnderflowError", ("LVL_WARN", True): "OverflowWarning", ("LVL_WARN", False): "UnderflowWarning"}[(lev, over)]))
    c.ensure("message", c.call(ST + "._logmsg", L["LVL_ERR"], False, "lab", "text") == "[ERROR:UNDERFLOW:LAB] text" and c.call(ST + "._logmsg", L["LVL_LOG"], True, "lab", "t") == "[LOG:OK:LAB] t"
             and c.call(ST + "._logmsg", L["LVL_WARN"], True, "l", "t") == "[WARNING:OVERFLOW:L] t")


VE = "carbon.helpers.version:"


@contract("P01", functions=[VE + "_require_version"], samples=400, max_paths=3000)
def versions_compare_component_by_component(c):
    """a version meets a requirement iff at the first difference it is larger, or it has the required version as a prefix"""
    n, m = c.choice("n", [1, 2, 3]), c.choice("m", [1, 2, 3])
    r, a = [c.int(f"r{i}", lo=0, hi=12) for i in range(n)], [c.int(f"a{i}", lo=0, hi=12) for i in range(m)]
    exp = m >= n
    for i in reversed(range(min(n, m))):
        exp = c.If(a[i] > r[i], True, c.If(a[i] < r[i], False, exp))
    got = c.call(VE + "_require_version", c.lift(r), c.lift(a))
    c.ensure("comparison", c.pyeq(got, exp) if not isinstance(exp, bool) else got is exp)


@contract("P01", functions=[VE + "require_version", VE + "split_version_str"], samples=200, kind="bounded")
def versions_from_text(c):
    """version strings: suffixes do not count, the requirement raises or answers as asked"""
    r, a = [c.int(f"r{i}", lo=0, hi=12) for i in range(c.choice("n", [1, 2, 3]))], [c.int(f"a{i}", lo=0, hi=12) for i in range(c.choice("m", [1, 2, 3]))]
    suffix = c.choice("suffix", ["", "-beta2", " rc"])
    rs, as_ = ".".join(map(str, r)), ".".join(map(str, a)) + suffix
    c.ensure("components", c.call(VE + "split_version_str", " " + as_) == a)
    k = min(len(r), len(a))
    met = a[:k] > r[:k] or (a[:k] == r[:k] and len(a) >= len(r))
    c.ensure("answer", c.call(VE + "require_version", rs, as_, raiseonfail=False) is met)
    out = c.try_(VE + "require_version", rs, as_)
    c.ensure("or raises", out.ok if met else out.raised("VersionRequirementNotMetError"))


SI = "carbon.helpers.stdimports:"


@contract("P01", functions=[SI + "iseq", SI + "raises"], samples=300, max_paths=2000)
def equality_helpers(c):
    """iseq is true iff every argument is within the tolerance of the first (relative, absolute at zero) or equal to it; raises is the message of the exception"""
    n = c.choice("n", [1, 2, 3])
    zero, eps = c.choice("zero", [True, False]), c.choice("eps", [None, .5])
    a = 0 if zero else c.real("a", gt=0, rng=(1, 2))
    e = c.rational(1, 10 ** 6) if eps is None else c.rational(1, 2)
    vs = []
    for i in range(n):
        near = c.symbolic or c.choice(f"near{i}", [True, False])
        v = c.real(f"v{i}", rng=(-1, 3), log=False)
        if not c.symbolic and near:
            v = a + e * v * .3 * (1 if zero else a)
        vs.append(v)
    for v in vs:
        d = v if zero else v - a
        m = e if zero else e * a
        if not c.symbolic:
            c.assume(abs(abs(d) / m - 1) > 1e-6)
    exp = c.And(*[c.And((v if zero else v - a) <= (e if zero else e * a), (v if zero else v - a) >= -(e if zero else e * a)) for v in vs])
    got = c.call(SI + "iseq", a, *vs, **({} if eps is None else {"eps": eps}))
    c.ensure("all of them", c.pyeq(got, exp) if not isinstance(exp, bool) else got is exp)
    t = c.choice("texts", [("x", "x", "x"), ("x", "x", "y"), ("x", "y", "x"), ("x", "x")])
    c.ensure("other values", c.call(SI + "iseq", *t) is (len(set(t)) == 1))
    c.ensure("nothing to compare", c.try_(SI + "iseq", a).raised("ValueError"))

    p = c.call(PA, a=1)
    c.ensure("no exception", c.call(SI + "raises", c.attr(p, "set"), "a", 2) is False)
    c.ensure("the exception", c.call(SI + "raises", c.attr(p, "set"), "a", 2, allowupdate=False) is not False)
