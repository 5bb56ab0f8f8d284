"""Contracts for token pairs and price quotation (carbon/pair.py, carbon/tools/simplepair.py) : O02."""
from pyvc.api import contract

P = "carbon.pair:CarbonPair."
S = "carbon.tools.simplepair:SimplePair."


def pair(c, dec=None):
    b, q = c.choice("names", [("ETH", "USDC"), ("USDC", "ETH"), ("LINK", "DAI")])
    return c.call("carbon.pair:CarbonPair", tknb=b, tknq=q), b, q


@contract("O02", functions=[P + "convert", P + "has_token", P + "has_basetoken", P + "has_quotetoken"], samples=400, budget=30)
def convert_amounts(c):
    """converting base to quote multiplies by the price and back divides; converting there and back is the identity; foreign tokens give None"""
    p, b, q = pair(c)
    a = c.real("a", rng=(-1e6, 1e6))
    x = c.real("price", gt=0, rng=(1e-6, 1e6))
    c.ensure("base to quote", c.eq(c.meth(p, "convert", a, b, q, x), a * x))
    c.ensure("quote to base", c.eq(c.meth(p, "convert", a, q, b, x) * x, a))
    c.ensure("same token", c.And(c.eq(c.meth(p, "convert", a, q, q, x), a), c.eq(c.meth(p, "convert", a, b, b, x), a)))
    r = c.meth(p, "convert", c.meth(p, "convert", a, b, q, x), q, b, x)
    c.ensure("there and back", c.eq(r, a))
    c.ensure("foreign tokens", c.meth(p, "convert", a, "BNT", q, x) is None and c.meth(p, "convert", a, b, "BNT", x) is None)


@contract("O02", functions=[P + "price", P + "convert_price", P + "price_convention", P + "reverse", P + "other"], samples=400, budget=30)
def convert_prices(c):
    """prices are reported in quote per base whatever way round they are given; the reversed pair has the reciprocal price"""
    p, b, q = pair(c)
    x = c.real("price", gt=0, rng=(1e-6, 1e6))
    c.ensure("native", c.eq(c.meth(p, "price", x, b, q), x))
    c.ensure("reversed", c.eq(c.meth(p, "price", x, q, b) * x, 1))
    c.ensure("numeraire quote", c.eq(c.meth(p, "convert_price", x, q), x))
    c.ensure("numeraire base", c.eq(c.meth(p, "convert_price", x, b) * x, 1))
    c.ensure("twice is the identity", c.eq(c.meth(p, "convert_price", c.meth(p, "convert_price", x, b), b), x))
    c.ensure("undefined", c.meth(p, "convert_price", x, "BNT") is None and c.meth(p, "convert_price", None, q) is None
             and c.meth(p, "price", x, "BNT", q) is None and c.meth(p, "price", x, b, "BNT") is None and c.meth(p, "price", x, b, b) is None)
    r = c.attr(p, "reverse")
    c.ensure("reverse swaps the tokens", c.And(c.is_str_eq(c.attr(r, "tknb"), q), c.is_str_eq(c.attr(r, "tknq"), b)))
    c.ensure("reverse price reciprocal", c.eq(c.meth(r, "price", x, b, q) * x, 1))
    c.ensure("other token", c.And(c.is_str_eq(c.meth(p, "other", b), q), c.is_str_eq(c.meth(p, "other", q), b)))
    c.ensure("no other token", c.meth(p, "other", "BNT") is None)
    c.ensure("convention", c.is_str_eq(c.attr(p, "price_convention"), q + " per " + b))
    c.ensure("amounts convert consistently with prices", c.eq(c.meth(p, "convert", 1, b, q, x), c.meth(r, "convert", 1, b, q, c.meth(r, "convert_price", x, q))))


@contract("O02", functions=[P + "limit_is_met"], samples=400, budget=30)
def limit_orders(c):
    """a limit is met exactly when the price is the limit or better for the side named, from either point of view"""
    p, b, q = pair(c)
    lim = c.real("limit", gt=0, rng=(1e-3, 1e3))
    cur = lim if c.bool("equal") else c.real("current", gt=0, rng=(1e-3, 1e3))
    buy = c.bool("buy")
    base = c.bool("base")
    rev = c.bool("reverse")
    r = c.meth(p, "limit_is_met", b if base else q, lim, "buy" if buy else "sell", cur, reverse=rev)
    want_low = (buy == base) != rev
    c.ensure("met iff at the limit or better", c.pyeq(r, (cur <= lim) if want_low else (cur >= lim)))
    c.ensure("foreign token", c.meth(p, "limit_is_met", "BNT", lim, "buy", cur) is None)
    if not rev:
        # buying one token at a limit is selling the other
        r2 = c.meth(p, "limit_is_met", q if base else b, lim, "sell" if buy else "buy", cur)
        c.ensure("buying one side is selling the other", c.pyeq(r, r2))


@contract("O02", functions=[P + "__post_init__", P + "create", P + "from_isopair_and_tkn", P + "from_slashpair", P + "set_decimals", P + "decimals",
                            P + "decdiffqb", P + "has_decimals", P + "pair_iso", P + "slashpair_d", P + "slashpair_o"], samples=300, budget=30)
def pair_constructors(c):
    """every way of building a pair yields the same upper-case pair; malformed requests are refused with ValueError"""
    b, q = c.choice("names", [("ETH", "USDC"), ("usdc", "eth"), ("Link", "DAI")])
    B, Q = b.upper(), q.upper()
    p = c.call("carbon.pair:CarbonPair", tknb=b, tknq=q)
    alts = [c.call("carbon.pair:CarbonPair", b + "/" + q), c.call(P + "create", b, q), c.call(P + "create", b + "/" + q), c.call(P + "create", p),
            c.call(P + "from_slashpair", " " + b + " / " + q + " "), c.call("carbon.pair:CarbonPair", p), c.call(P + "from_isopair_and_tkn", b + q, B),
            c.call(P + "from_isopair_and_tkn", b + q, Q)]
    for a in [p] + alts:
        c.ensure("tokens", c.And(c.is_str_eq(c.attr(a, "tknb"), B), c.is_str_eq(c.attr(a, "tknq"), Q), c.is_str_eq(c.attr(a, "slashpair"), B + "/" + Q),
                                 c.is_str_eq(c.attr(a, "pair_iso"), B + Q), c.is_str_eq(c.attr(a, "pair_slash"), B + "/" + Q),
                                 c.is_str_eq(c.attr(a, "basetoken"), B), c.is_str_eq(c.attr(a, "quotetoken"), Q)))
    c.ensure("create returns the pair itself", c.same(alts[3], p))
    c.ensure("original names kept", c.And(c.is_str_eq(c.attr(p, "tknb_o"), b), c.is_str_eq(c.attr(p, "slashpair_o"), b + "/" + q), c.is_str_eq(c.attr(p, "slashpair_d"), B + "/" + Q)))
    c.ensure("nothing from nothing", c.call(P + "create") is None)
    for out in (c.try_("carbon.pair:CarbonPair", b, q), c.try_("carbon.pair:CarbonPair", b + "/" + q, b), c.try_("carbon.pair:CarbonPair"),
                c.try_("carbon.pair:CarbonPair", b + q), c.try_("carbon.pair:CarbonPair", b + "/" + q + "/" + b), c.try_(P + "create", p, q),
                c.try_(P + "from_slashpair", b + q), c.try_(P + "from_isopair_and_tkn", b + q, "XYZ"), c.try_(P + "from_isopair_and_tkn", b + q + "E" * (10 - len(b + q)))):
        c.ensure("malformed pair refused", out.raised("ValueError"))


@contract("O02", functions=[P + "from_isopair_and_tkn"], samples=50, budget=30)
def isopair_split(c):
    """without a token an ISO pair of six or eight letters is split in the middle"""
    s, b, q = c.choice("iso", [("ethdai", "ETH", "DAI"), ("WBTCUSDC", "WBTC", "USDC"), ("BNTETH", "BNT", "ETH")])
    p = c.call(P + "from_isopair_and_tkn", s)
    c.ensure("split", c.And(c.is_str_eq(c.attr(p, "tknb"), b), c.is_str_eq(c.attr(p, "tknq"), q)))


@contract("O02", functions=[P + "set_decimals", P + "decimals", P + "decdiffqb", P + "has_decimals", P + "from_slashpair"], samples=200, budget=30)
def pair_decimals(c):
    """decimals are kept per token, survive copying, and their difference is quote minus base; missing ones are reported as missing"""
    p, b, q = pair(c)
    c.ensure("none yet", c.And(c.Not(c.attr(p, "has_decimals")), c.attr(p, "decdiffqb") is None))
    db, dq = c.int("db", 0, rng=(0, 30)), c.int("dq", 0, rng=(0, 30))
    how = c.choice("how", ["set", "dict", "mixed", "slash"])
    if how == "set":
        r = c.meth(p, "set_decimals", db, dq)
    elif how == "dict":
        r = c.meth(p, "set_decimals", dct={b: db, q: dq})
    elif how == "mixed":
        r = c.meth(p, "set_decimals", db, dct={b: 99, q: dq})
    else:
        out = c.try_(P + "from_slashpair", b + "/" + q, (db, dq))
        c.ensure("no crash", out.ok)
        if not out.ok:
            return
        r = p = out.value
    c.ensure("returns itself", c.same(r, p))
    for z in (p, c.call("carbon.pair:CarbonPair", p)):
        d = c.attr(z, "decimals")
        c.ensure("per token", c.And(c.eq(c.item(d, b), db), c.eq(c.item(d, q), dq), c.eq(c.item(d, "_TKNB"), db), c.eq(c.item(d, "_TKNQ"), dq)))
        c.ensure("difference", c.And(c.eq(c.attr(z, "decdiffqb"), dq - db), c.eq(c.item(d, "_DIFFQB"), dq - db)))
        c.ensure("has decimals", c.attr(z, "has_decimals"))
    h = c.meth(p, "set_decimals", db)
    c.ensure("half is not enough", c.And(c.Not(c.attr(h, "has_decimals")), c.attr(h, "decdiffqb") is None))


@contract("O02", functions=[S + "primary_price", S + "isprimary", S + "primary", S + "secondary", S + "n", S + "pairr", S + "from_tokens", S + "__post_init__"],
          samples=300, budget=30)
def primary_prices(c):
    """exactly one orientation of a pair is primary; the primary price does not depend on the orientation it is given in"""
    b, q = c.choice("names", [("ETH", "USDC"), ("WBTC", "ETH"), ("LINK", "BNT"), ("AAVE", "DAI"), ("USDT", "USDC"), ("BNT-1a", "LINK(0x)"), ("USDC-eb48", "WETH-6cc2"), ("WETH-6cc2", "WETH-0123"),
                          ("XYZ-1", "XYZ"), ("DAI(1)", "DAI-2"), ("XYZ", "XYA")])
    if c.bool("swap"):
        b, q = q, b
    x = c.real("price", gt=0, rng=(1e-6, 1e6))
    p = c.call("carbon.tools.simplepair:SimplePair", b + "/" + q)
    r = c.call("carbon.tools.simplepair:SimplePair", c.lift([q, b]))
    t = c.call(S + "from_tokens", b, q)
    u = c.call("carbon.tools.simplepair:SimplePair", p)
    for z in (p, t, u):
        c.ensure("tokens", c.And(c.is_str_eq(c.attr(z, "tknb"), b), c.is_str_eq(c.attr(z, "tknq"), q), c.is_str_eq(c.attr(z, "pair"), b + "/" + q),
                                 c.is_str_eq(c.attr(z, "pairr"), q + "/" + b), c.is_str_eq(c.attr(z, "tknx"), b), c.is_str_eq(c.attr(z, "tkny"), q)))
    c.ensure("exactly one is primary", c.attr(p, "isprimary") is not c.attr(r, "isprimary"))
    a = c.meth(p, "primary_price", x)
    d = c.meth(r, "primary_price", c.div(1, x))
    c.ensure("primary price independent of orientation", c.eq(a, d))
    c.ensure("primary price of the primary pair", c.eq(a, x) if c.attr(p, "isprimary") else c.eq(a * x, 1))
    c.ensure("primary pair independent of orientation", c.is_str_eq(c.attr(p, "primary"), c.attr(r, "primary")))
    c.ensure("secondary is the other one", c.And(c.is_str_eq(c.attr(p, "secondary"), c.attr(r, "secondary")), c.Not(c.is_str_eq(c.attr(p, "secondary"), c.attr(p, "primary")))))
    c.ensure("alias", c.eq(c.meth(p, "pp", x), a))
    c.ensure("wrap and unwrap", c.is_str_eq(c.item(c.call(S + "unwrap", c.call(S + "wrap", c.lift([b + "/" + q, q + "/" + b]))), 1), q + "/" + b))
