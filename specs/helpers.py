"""Contracts for the number helpers (floatint.py, sharedvar.py) and the Uniswap v3 translator (univ3calc.py) : F01, V01, U01."""
from pyvc.api import contract

F = "carbon.helpers.floatint:CarbonFloatInt64"
FI = F + "."
CLS = ["CarbonFloatInt64", "CarbonFloatInt32", "CarbonFloatInt40", "CarbonFloatInt128"]
M = "carbon.helpers.floatint:"


def parts(c, o):
    return c.attr(o, "significant"), c.attr(o, "exponent"), c.attr(o, "asint")


# ------------------------------------------------------------------------------------------------ F01
@contract("F01", functions=[FI + "from_int", FI + "bindig", FI + "asint"], samples=600)
def leading_bits_are_kept(c):
    """an integer below 2^295 is stored with at most 40 significant bits and an 8 bit exponent, rounded down, and exactly if it has 40 bits or less"""
    n = c.int("n", lo=0, hi=2 ** 295 - 1)
    o = c.call(FI + "from_int", n)
    s, e, v = parts(c, o)
    c.ensure("40 bit significant", c.And(s >= 0, s < 2 ** 40))
    c.ensure("8 bit exponent", c.And(e >= 0, e < 2 ** 8))
    c.ensure("value is significant times 2^exponent", c.eq(v, s * c.pow2(e)))
    c.ensure("rounded down", c.And(v <= n, n - v < c.pow2(e)))
    c.ensure("small integers exact", c.Implies(n < 2 ** 40, c.And(c.eq(v, n), c.eq(e, 0))))
    c.ensure("no precision given away", c.Implies(n >= 2 ** 40, s >= 2 ** 39))
    c.ensure("relative error below 2^-39", (n - v) * 2 ** 39 <= n)


@contract("F01", functions=[FI + "from_int"], samples=400)
def compression_is_idempotent_and_monotone(c):
    """compressing again changes nothing, and order is preserved"""
    n = c.int("n", lo=0, hi=2 ** 295 - 1)
    o = c.call(FI + "from_int", n)
    s, e, v = parts(c, o)
    if c.split(n >= 2 ** 40):
        for nm, step in (("at least 40 bits", s * c.pow2(e) >= 2 ** 39 * c.pow2(e)), ("at most 40 bits", s * c.pow2(e) < 2 ** 40 * c.pow2(e))):
            c.ensure(nm, step)      # steps of the argument: shown, then used
            c.assume(step)
    s2, e2, v2 = parts(c, c.call(FI + "from_int", v))
    c.ensure("same exponent", c.eq(e, e2))
    c.assume(c.eq(e, e2))
    c.ensure("same significant", c.eq(s, s2))
    c.assume(c.eq(s, s2))
    c.ensure("idempotent", c.eq(v, v2))
    m = n + c.int("d", lo=0, hi=2 ** 200)
    c.assume(m < 2 ** 295)
    s3, e3, v3 = parts(c, c.call(FI + "from_int", m))
    c.ensure("exponent monotone", e3 >= e)
    c.assume(e3 >= e)
    if c.split(c.eq(e3, e)):
        c.ensure("significant monotone", s3 >= s)
        c.assume(s3 >= s)
        c.ensure("value monotone", s3 * c.pow2(e) >= s * c.pow2(e))


@contract("F01", functions=[FI + "from_int", FI + "__post_init__"], samples=300)
def unrepresentable_integers_are_refused(c):
    """negative integers, integers of more than 295 bits and non-integers are refused by an assertion; so are negative exponents"""
    how = c.choice("how", ["big", "negative", "float", "negative exponent", "float significant", "float exponent"])
    if how == "big":
        r = c.try_(FI + "from_int", 2 ** 295 + c.int("n", lo=0, hi=2 ** 320))
    elif how == "negative":
        r = c.try_(FI + "from_int", -1 - c.int("n", lo=0, hi=2 ** 64))
    elif how == "float":
        r = c.try_(FI + "from_int", c.real("x", gt=0, rng=(1, 10)))
    elif how == "negative exponent":
        r = c.try_(F, c.int("s", lo=0, hi=100), -1 - c.int("n", lo=0, hi=100))
    elif how == "float significant":
        r = c.try_(F, c.real("x", gt=0, rng=(1, 10)), 1)
    else:
        r = c.try_(F, 1, c.real("x", gt=0, rng=(1, 10)))
    c.ensure("refused", r.raised("AssertionError"))


@contract("F01", functions=[FI + "from_float", FI + "asfloat", FI + "_one", FI + "one"], samples=600)
def floats_round_down_to_the_grid(c):
    """a non-negative float becomes the representable number just below it: off by less than one unit of 2^-ONE_EXPONENT or a 2^-39 part of itself"""
    k = c.choice("cls", CLS)
    one = 2 ** {"CarbonFloatInt64": 64, "CarbonFloatInt32": 32, "CarbonFloatInt40": 40, "CarbonFloatInt128": 128}[k]
    x = c.real("x", lo=0, rng=(1e-9, 1e9))
    c.assume(x * one < 2 ** 295 - 1)
    o = c.call(f"{M}{k}.from_float", x)
    s, e, v = parts(c, o)
    c.ensure("scale", c.eq(c.attr(o, "one"), one))
    c.ensure("pair", c.eq(c.items(c.attr(o, "asint1"))[0], v) if c.symbolic else tuple(c.attr(o, "asint1")) == (v, one))
    y = c.attr(o, "asfloat")
    c.ensure("float of the stored integer", c.eq(y * one, v))
    c.ensure("not above", c.le(y, x, tol=1e-12))
    c.ensure("close below", (x - y) * one <= 1 + x * one / 2 ** 39 if c.symbolic else (x - y) * one <= 1 + x * one / 2 ** 38)
    c.ensure("int and float conversions", c.eq(c.meth(o, "__int__"), v))
    c.ensure("float conversion", c.eq(c.meth(o, "__float__"), y))


@contract("F01", functions=[FI + "min", FI + "max", FI + "asdict", FI + "asdict1", FI + "astuple", FI + "astuple1"], samples=100)
def extreme_values(c):
    """min and max are the ends of the representable range; dict and tuple views show the two fields"""
    k = c.int("k", lo=0, hi=1000)
    c.ensure("max", c.eq(c.attr(c.call(FI + "max", k), "asint"), (2 ** 40 - 1 - k) * 2 ** 255))
    c.ensure("min", c.eq(c.attr(c.call(FI + "min", k), "asint"), 1 + k))
    s, e, v = parts(c, c.call(FI + "from_int", (2 ** 40 - 1 - k) * 2 ** 255))
    c.ensure("max is representable", c.And(c.eq(s, 2 ** 40 - 1 - k), c.eq(e, 255)))
    o = c.call(F, 5 + k, 3)
    d = dict(c.dict_items(c.attr(o, "asdict")))
    c.ensure("dict", list(d) == ["significant", "exponent"] and c.And(c.eq(d["significant"], 5 + k), c.eq(d["exponent"], 3)))
    d = dict(c.dict_items(c.attr(o, "asdict1")))
    c.ensure("dict with scale", list(d) == ["significant", "exponent", "one_exponent"] and c.eq(d["one_exponent"], 64))
    t = c.items(c.attr(o, "astuple"))
    c.ensure("tuple", len(t) == 2 and c.And(c.eq(t[0], 5 + k), c.eq(t[1], 3)))
    c.ensure("tuple with scale", len(c.items(c.attr(o, "astuple1"))) == 3)


# ------------------------------------------------------------------------------------------------ V01
V = "carbon.helpers.sharedvar:SharedVar"
BIN = {"+": "add", "-": "sub", "*": "mul", "/": "truediv", "//": "floordiv", "%": "mod"}


def val(c, o):
    return c.attr(o, "value")


@contract("V01", functions=[V + "." + f"__{p}{n}__" for n in BIN.values() for p in ("", "r")] + [V + "._wrap"], samples=600)
def arithmetic_is_that_of_the_value(c):
    """an operation on a shared variable gives a new variable with the result for its value, on either side, and changes neither operand"""
    sym = c.choice("op", sorted(BIN))
    ints = c.bool("ints")
    if ints:
        a, b = c.int("a", lo=-50, hi=50), c.int("b", lo=1, hi=50)
    else:
        a, b = c.real("a", rng=(-50, 50)), c.real("b", gt=0, rng=(1, 50))
        if sym in ("//", "%"):
            return
    x = c.call(V, a)
    r = c.op(sym, x, b).value
    c.ensure("result", c.eq(val(c, r), c.op(sym, a, b).value))
    c.ensure("new object", not c.same(r, x))
    y = c.call(V, b)
    r = c.op(sym, a, y).value
    c.ensure("reflected result", c.eq(val(c, r), c.op(sym, a, b).value))
    c.ensure("reflected new object", not c.same(r, y))
    c.ensure("operands unchanged", c.And(c.eq(val(c, x), a), c.eq(val(c, y), b)))


@contract("V01", functions=[V + "." + f"__i{n}__" for n in BIN.values()] + [V + ".setval"], samples=600)
def in_place_operations_keep_the_sharing(c):
    """x += v and the like change the value every holder of the variable sees, and the name stays bound to the same object; so does setval"""
    sym = c.choice("op", sorted(BIN) + ["set"])
    ints = c.bool("ints")
    if ints:
        a, b = c.int("a", lo=-50, hi=50), c.int("b", lo=1, hi=50)
    else:
        a, b = c.real("a", rng=(-50, 50)), c.real("b", gt=0, rng=(1, 50))
        if sym in ("//", "%"):
            return
    x = c.call(V, a)
    z = c.call(V, a)
    if sym == "set":
        r, want = c.meth(x, "setval", b), b
    else:
        r, want = c.meth(x, f"__i{BIN[sym]}__", b), c.op(sym, a, b).value
    c.ensure("same object", c.same(r, x))
    c.ensure("value", c.eq(val(c, x), want))
    c.ensure("another variable is not affected", c.eq(val(c, z), a))


@contract("V01", functions=[V + "." + f"__{n}__" for n in ("eq", "lt", "le", "gt", "ge", "neg", "pos", "abs", "floor", "ceil", "trunc", "round", "pow", "ipow", "divmod", "int", "float", "index")], samples=600)
def comparisons_and_conversions(c):
    """comparisons, unary operations and conversions are those of the value"""
    a = c.real("a", rng=(-50, 50))
    b = c.real("b", rng=(-50, 50))
    x = c.call(V, a)
    for nm, want in (("__eq__", a == b), ("__lt__", a < b), ("__le__", a <= b), ("__gt__", a > b), ("__ge__", a >= b)):
        g = c.meth(x, nm, b)
        c.ensure(nm, c.And(c.Implies(g, want), c.Implies(want, g)))
    c.ensure("neg", c.eq(val(c, c.meth(x, "__neg__")), -1 * a))
    c.ensure("pos", c.eq(val(c, c.meth(x, "__pos__")), a))
    c.ensure("pos is a new variable", not c.same(c.meth(x, "__pos__"), x))
    c.ensure("abs", c.eq(val(c, c.meth(x, "__abs__")), c.If(a >= 0, a, -1 * a)))
    c.ensure("floor", c.eq(val(c, c.meth(x, "__floor__")), c.floor(a)))
    c.ensure("ceil", c.eq(val(c, c.meth(x, "__ceil__")), c.ceil(a)))
    c.ensure("trunc", c.eq(val(c, c.meth(x, "__trunc__")), c.If(a >= 0, c.floor(a), c.ceil(a))))
    h = c.int("h", lo=-1000, hi=1000)
    r = c.try_meth(c.call(V, h + c.rational(1, 4)), "__round__")
    c.ensure("round", c.eq(val(c, r.value), h) if r.ok else False)
    n = c.choice("n", [2, 3])
    want = a * a if n == 2 else a * a * a
    c.ensure("pow", c.eq(val(c, c.meth(x, "__pow__", n)), want))
    c.ensure("ipow", c.eq(val(c, c.meth(c.call(V, a), "__ipow__", n)), want))
    i = c.int("i", lo=-100, hi=100)
    v = c.call(V, i)
    c.ensure("int", c.eq(c.meth(v, "__int__"), i))
    c.ensure("index", c.eq(c.meth(v, "__index__"), i))
    c.ensure("float", c.eq(c.meth(x, "__float__"), a))
    q, m = c.items(c.meth(v, "__divmod__", 7))
    c.ensure("divmod", c.And(c.eq(val(c, q) * 7 + val(c, m), i), val(c, m) >= 0, val(c, m) < 7))
    c.ensure("nothing changed", c.And(c.eq(val(c, x), a), c.eq(val(c, v), i)))


# ------------------------------------------------------------------------------------------------ U01
U = "carbon.tools.univ3calc:Univ3Calculator"
UM = U + "."
TS = {100: 1, 500: 10, 3000: 60, 10000: 200}


def pool(c):
    """any pool whose square root price lies in its tick (precondition), any decimals and fee tier"""
    d0 = c.choice("d0", [6, 8, 18])
    d1 = c.choice("d1", [6, 8, 18])
    fee = c.choice("fee", sorted(TS))
    tick = c.int("tick", lo=-887272, hi=887272, rng=(-200000, 200000))
    sp = c.int("sp96", lo=1, rng=(1, 2 ** 160))
    if not c.symbolic:
        sp = int(1.0001 ** ((tick + c.real("f", gt=0, lt=1, rng=(0.01, 0.99))) / 2) * 2 ** 96)
        c.assume(sp > 2 ** 40)
    liq = c.int("liq", lo=1, hi=2 ** 128, rng=(10 ** 6, 2 ** 100))
    p = c.call(U, "TKA", "TKB", sp, tick, liq, fee, d0, d1)
    return p, d0, d1, fee, tick, sp, liq


@contract("U01", functions=[UM + m for m in ("p", "decf", "fee", "ticksize", "tickab", "L", "k", "price_tkn0_per_tkn1", "_price_f", "Lsquared", "kbar")], samples=600, weight=2)
def contract_values_to_token_units(c):
    """price = (sqrtPriceX96 / 2^96)^2 10^(dec0 - dec1), L^2 10^(dec0 + dec1) = liquidity^2, and the tick range is the multiple of the spacing around the tick"""
    p, d0, d1, fee, tick, sp, liq = pool(c)
    pr = c.attr(p, "p")
    num, den = (10 ** (d0 - d1), 1) if d0 >= d1 else (1, 10 ** (d1 - d0))
    c.ensure("price", c.eq(pr * den * 2 ** 192, sp * sp * num))
    c.ensure("inverse price", c.eq(c.attr(p, "price_tkn0_per_tkn1") * pr, 1))
    L = c.attr(p, "L")
    c.ensure("L positive", L > 0)
    c.ensure("L", c.eq(L * L * 10 ** (d0 + d1), c.flt(liq) * liq, tol=1e-9))
    c.ensure("k", c.And(c.eq(c.attr(p, "k"), L * L), c.eq(c.attr(p, "Lsquared"), L * L), c.eq(c.attr(p, "kbar"), L)))
    ts = c.attr(p, "ticksize")
    c.ensure("tick spacing of the fee tier", ts == TS[fee])
    c.ensure("fee", c.eq(c.attr(p, "fee") * 1000000, fee))
    a, b = c.items(c.attr(p, "tickab"))
    c.ensure("range around the tick", c.And(a <= tick, tick < b, c.eq(b - a, ts)))
    c.ensure("on the tick grid", c.eq(c.floor(c.div(a, ts)) * ts, a))
    c.ensure("pair", c.attr(p, "pair") == "TKA/TKB")


@contract("U01", functions=[UM + m for m in ("papb_raw", "papb_tkn1_per_tkn0", "papb_tkn0_per_tkn1", "cpc_params")], samples=400, weight=2)
def price_range_of_the_pool(c):
    """Pa < Pb are the prices at the ends of the tick range in the same units as the price, and cpc_params passes them on"""
    p, d0, d1, fee, tick, sp, liq = pool(c)
    ra, rb = c.items(c.attr(p, "papb_raw"))
    pa, pb = c.items(c.attr(p, "papb"))
    qa, qb = c.items(c.attr(p, "papb_tkn0_per_tkn1"))
    num, den = (10 ** (d0 - d1), 1) if d0 >= d1 else (1, 10 ** (d1 - d0))
    c.ensure("ordered", c.And(0 < ra, ra < rb))
    c.ensure("width of the range", c.eq(rb, ra * c.rational(10001, 10000) ** TS[fee], tol=1e-9))
    c.ensure("lower", c.eq(pa * den, ra * num))
    c.ensure("upper", c.eq(pb * den, rb * num))
    c.ensure("inverse lower", c.eq(qa * pa, 1))
    c.ensure("inverse upper", c.eq(qb * pb, 1))
    d = dict(c.dict_items(c.meth(p, "cpc_params", cid="x", descr="y")))
    c.ensure("parameters for the curve", c.And(c.eq(d["Pmarg"], c.attr(p, "p")), c.eq(d["uniL"], c.attr(p, "L")), c.eq(d["uniPa"], pa), c.eq(d["uniPb"], pb), c.eq(d["fee"] * 1000000, fee)))
    c.ensure("labels for the curve", d["pair"] == "TKA/TKB" and d["cid"] == "x" and d["descr"] == "y")


@contract("U01", functions=[UM + "tkn0reserve", UM + "tkn1reserve", UM + "tvl"], samples=500, weight=2)
def reserves_are_those_of_the_curve(c):
    """the reserves in token units are those of the constant product curve of the position, and tvl adds them at the price"""
    p, d0, d1, fee, tick, sp, liq = pool(c)
    pa, pb = c.items(c.attr(p, "papb"))
    pr, L = c.attr(p, "p"), c.attr(p, "L")
    c.assume(pa < pr)
    c.assume(pr < pb)
    s, sa, sb = c.sqrt(pr), c.sqrt(pa), c.sqrt(pb)
    x, y = c.meth(p, "tkn0reserve"), c.meth(p, "tkn1reserve")
    c.ensure("token 0", c.eq(x * s * sb, L * (sb - s), scale=L * sb, tol=1e-9))
    c.ensure("token 1", c.eq(y, L * (s - sa), scale=L * s, tol=1e-9))
    c.ensure("with token names", c.items(c.meth(p, "tkn0reserve", incltoken=True))[1] == "TKA" and c.items(c.meth(p, "tkn1reserve", incltoken=True))[1] == "TKB")
    t1 = c.meth(p, "tvl")
    c.ensure("tvl in token 1", c.eq(t1, x * pr + y, tol=1e-9))
    c.ensure("tvl in token 0", c.eq(c.meth(p, "tvl", astkn0=True) * pr, t1, tol=1e-9))
    c.ensure("tvl token", c.items(c.meth(p, "tvl", incltoken=True))[1] == "TKB" and c.items(c.meth(p, "tvl", astkn0=True, incltoken=True))[1] == "TKA")


@contract("U01", functions=[UM + "from_dict", UM + "__post_init__"], samples=100)
def pool_from_contract_data(c):
    """contract data given as strings and addresses; unknown fee tiers are refused"""
    fee = c.choice("fee", sorted(TS) + [250])
    d = {"token0": "0xA0b86991c6218b36c1d19D4a2e9Eb0cE3606eB48", "token1": "0xC02aaA39b223FE8D0A0e5C4F27eAD9083C756Cc2",
         "sqrt_price_q96": "1725337071198080486317035748446190", "tick": "199782", "liquidity": "36361853546581410773"}
    r = c.try_(UM + "from_dict", c.lift(d), fee)
    if fee == 250:
        c.ensure("refused", r.raised("AssertionError"))
        return
    c.ensure("accepted", r.ok)
    o = r.value
    c.ensure("tokens", c.attr(o, "tkn0") == "USDC" and c.attr(o, "tkn1") == "WETH" and c.attr(o, "tkn0dec") == 6 and c.attr(o, "tkn1dec") == 18)
    c.ensure("numbers", c.attr(o, "sp96") == 1725337071198080486317035748446190 and c.attr(o, "tick") == 199782 and c.attr(o, "liquidity") == 36361853546581410773)
