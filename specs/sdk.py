"""Contracts for the Carbon SDK interface (carbon/sdk) : E01..E03."""
from pyvc.api import contract, fn_contract

S1 = "carbon.sdk.carbonsdk:"
S0 = "carbon.sdk.carbonsdk0:CarbonSDK0."
SB = "carbon.sdk.sdkbase:SDKBase."
EO = S1 + "EncodedOrder."
SDK = S1 + "CarbonSDK"
TK = "carbon.sdk.sdktoken:"
ONE = 2 ** 48

fn_contract(EO + "encodeRate", ["value"], "int",
            pre=lambda c, v: [("rate not negative", v >= 0)],
            post=lambda c, v, r: [("not negative", r >= 0)])


# ------------------------------------------------------------------ E01 : encoded orders
@contract("E01", functions=[EO + "encodeRate", EO + "bitLength"], samples=800)
def rates_lose_little(c):
    """the encoded rate is the square root of the rate in units of 2^-48, rounded down, to 48 significant bits"""
    v = c.real("v", lo=0, rng=(1e-9, 10.0 ** c.choice("vexp", [3, 12, 24])) if not c.symbolic else None)
    e = c.call(EO + "encodeRate", v)
    s = c.sqrt(v)
    c.ensure("a non-negative integer", c.And(c.isint(e), e >= 0))
    c.ensure("never above", c.le(c.flt(e), s * ONE))
    c.ensure("close", c.lt(s * ONE, c.flt(e) + 1 + s * ONE / 2 ** 47, tol=1e-12))


@contract("E01", functions=[EO + "encodeRate", EO + "bitLength"], samples=800)
def rates_keep_their_order(c):
    """a higher rate never has a lower encoding"""
    v = c.real("v", lo=0, rng=(1e-9, 10.0 ** c.choice("vexp", [3, 12, 24])) if not c.symbolic else None)
    f = c.real("f", lo=1, rng=(1, 1 + 10.0 ** c.choice("fexp", [-12, -6, 0, 3])) if not c.symbolic else None)
    w = v * f
    s1, s2 = c.sqrt(v), c.sqrt(w)
    c.ensure("square root monotone", c.le(s1, s2))
    c.assume(s1 <= s2)
    d1, d2 = c.floor(s1 * ONE), c.floor(s2 * ONE)
    c.ensure("integer part monotone", d1 <= d2)
    c.assume(d1 <= d2)
    n1, n2 = [c.call(EO + "bitLength", c.op("//", d, ONE).value) for d in (d1, d2)]
    e1 = c.call(EO + "encodeRate", v)
    e2 = c.call(EO + "encodeRate", w)
    c.ensure("number of bits monotone", n1 <= n2)
    c.assume(n1 <= n2)
    if c.split(c.eq(n1, n2)):
        c.ensure("monotone, same number of bits", e1 <= e2)
    else:
        for nm, step in (("between the powers of two, below", e1 < ONE * c.pow2(n1)), ("between the powers of two, above", 2 * e2 >= ONE * c.pow2(n2)),
                         ("powers of two", c.pow2(n2) >= 2 * c.pow2(n1))):
            c.ensure(nm, step)      # steps of the argument: shown, then used
            c.assume(step)
        c.ensure("monotone", e1 <= e2)


@contract("E01", functions=[EO + "encodeFloat", EO + "decodeFloat", EO + "decode", EO + "bitLength"], samples=1000)
def mantissa_and_exponent(c):
    """decoding an encoded integer gives at most the integer, exactly if it has 48 bits, and within 2^-47 otherwise; encoding again changes nothing"""
    v = c.int("v", 0, rng=(0, 2 ** c.choice("vsz", [10, 48, 49, 60, 96, 128])) if not c.symbolic else None)
    e = c.call(EO + "encodeFloat", v)
    r = c.call(EO + "decodeFloat", e)
    c.ensure("a non-negative integer", c.And(c.isint(e), e >= 0))
    c.ensure("not above the value", c.And(r <= v, r >= 0))
    c.ensure("relative loss below 2^-47", (v - r) * 2 ** 47 <= v)
    c.ensure("exact below 2^48", c.Implies(v < ONE, c.eq(r, v)))
    c.ensure("in proper units", c.eq(c.call(EO + "decode", e) * ONE, c.flt(r)))


@contract("E01", functions=[EO + "encode", EO + "encodeRate", EO + "encodeFloat"], samples=800, weight=2, summaries=[EO + "encodeRate"])
def encoding_an_order(c):
    """liquidity kept; capacity as given, or the liquidity, or what makes the marginal price the one given; A, B the encoded rates"""
    y = c.int("y", lo=0, rng=(0, 10 ** 24))
    lo = c.real("low", gt=0, rng=(1e-6, 10.0 ** c.choice("lexp", [6, 12])) if not c.symbolic else None)
    m = lo * c.real("f1", lo=1, rng=(1, 10))
    h = m * c.real("f2", lo=1, rng=(1, 10))
    L, M, H = [c.call(EO + "encodeRate", v) for v in (lo, m, h)]
    c.assume(c.And(L <= M, M <= H))             # rates_keep_their_order
    how = c.choice("how", ["full", "z", "p_marg", "both"])
    kw = {}
    if how in ("z", "both"):
        z0 = y + c.int("dz", lo=0, rng=(0, 10 ** 24))
        kw["z"] = z0
    if how in ("p_marg", "both"):
        kw["p_marg"] = m
        c.assume(L < M)
    if c.bool("tkn"):
        kw["token"] = "0xab"
    r = c.try_(EO + "encode", y, h, lo, **kw)
    if how == "both":
        c.ensure("capacity and marginal price refused", r.raised("ValueError"))
        return
    c.ensure("accepted", r.ok)
    o = r.value
    z = c.attr(o, "z")
    c.ensure("liquidity", c.eq(c.attr(o, "y"), y))
    c.ensure("integers", c.And(c.isint(c.attr(o, "y")), c.isint(z)))
    c.ensure("capacity at least the liquidity", z >= y)
    if how == "full":
        c.ensure("full", c.eq(z, y))
    elif how == "z":
        c.ensure("capacity as given", c.eq(z, z0))
    else:
        c.ensure("full at the top of the range", c.Implies(c.eq(m, h), c.eq(z, y)))
        c.ensure("capacity puts the marginal price where asked", c.Implies(m < h, c.And(z * (M - L) <= y * (H - L), (z + 1) * (M - L) > y * (H - L))))
    c.ensure("B encodes the lowest rate", c.eq(c.attr(o, "B"), c.call(EO + "encodeFloat", L)))
    c.ensure("A encodes the width", c.eq(c.attr(o, "A"), c.call(EO + "encodeFloat", H - L)))
    c.ensure("token", c.attr(o, "token") == kw.get("token", "TKN"))


@contract("E01", functions=[EO + "encode_yzAB", EO + "A_", EO + "B_", EO + "decode", EO + "encodeFloat"], samples=800, weight=2)
def encoding_curve_parameters(c):
    """y, z kept; A, B come back rounded down, by less than 2^-48 plus 2^-47 of them"""
    y, z = c.int("y", lo=0, rng=(0, 10 ** 24)), c.int("z", lo=0, rng=(0, 10 ** 24))
    A = c.real("A", lo=0, rng=(1e-9, 10.0 ** c.choice("aexp", [0, 6, 12])) if not c.symbolic else None)
    B = c.real("B", lo=0, rng=(1e-9, 10.0 ** c.choice("bexp", [0, 6, 12])) if not c.symbolic else None)
    o = c.call(EO + "encode_yzAB", y, z, A, B, token="0xab")
    c.ensure("y and z", c.And(c.eq(c.attr(o, "y"), y), c.eq(c.attr(o, "z"), z), c.attr(o, "token") == "0xab"))
    for nm, v in (("A", A), ("B", B)):
        w = c.attr(o, nm + "_")
        c.ensure(nm + " never above", c.le(w, v))
        c.ensure(nm + " close", c.lt(v, w + c.rational(1, ONE) + v / 2 ** 47, tol=1e-12))
        c.ensure(nm + " encoded as an integer", c.isint(c.attr(o, nm)))


fn_contract(EO + "decodeFloat", ["value"], "int",
            pre=lambda c, v: [("encoding not negative", v >= 0)],
            post=lambda c, v, r: [("not negative", r >= 0)])


@contract("E01", functions=[EO + m for m in ("p_start", "p_end", "p_marg", "decoded", "A_", "B_", "from_sdk", "__getitem__", "descr")], samples=400, summaries=[EO + "decodeFloat"])
def decoding_an_order(c):
    """prices in dy/dx from the decoded A, B; the marginal price of full and empty orders is the end of the range; of others it is refused"""
    y, z = c.int("y", lo=0, rng=(0, 10 ** 24)), c.int("z", lo=0, rng=(0, 10 ** 24))
    A, B = c.int("A", lo=0, rng=(0, 2 ** 54)), c.int("B", lo=0, rng=(1, 2 ** 54))
    if c.choice("kind", [0, 1]):
        z = y
    o = c.call(EO + "from_sdk", "0xab", c.lift({"y": y, "z": z, "A": A, "B": B}))
    a, b = c.attr(o, "A_"), c.attr(o, "B_")
    c.ensure("A in proper units", c.eq(a * ONE, c.flt(c.call(EO + "decodeFloat", A))))
    c.ensure("B in proper units", c.eq(b * ONE, c.flt(c.call(EO + "decodeFloat", B))))
    ps, pe = c.attr(o, "p_start"), c.attr(o, "p_end")
    c.ensure("lowest price", c.eq(pe, b * b))
    c.ensure("highest price", c.eq(ps, (a + b) * (a + b)))
    c.ensure("ordered", c.le(pe, ps))
    d = c.attr(o, "decoded")
    c.ensure("decoded order", c.And(c.eq(c.attr(d, "y"), y), c.eq(c.attr(d, "z"), z), c.eq(c.attr(d, "A"), a), c.eq(c.attr(d, "B"), b)))
    for k, v in (("y", y), ("z", z), ("A", A), ("B", B)):
        c.ensure("item " + k, c.And(c.eq(c.attr(o, k), v), c.eq(c.item(o, k), v)))
    c.ensure("token", c.attr(o, "token") == "0xab" and c.item(o, "token") == "0xab")
    r = c.try_attr(o, "p_marg")
    if c.split(c.eq(y, z)):
        c.ensure("full: highest price", r.ok and c.eq(r.value, ps))
    elif c.split(c.eq(y, 0)):
        c.ensure("empty: lowest price", r.ok and c.eq(r.value, pe))
    else:
        c.ensure("otherwise not available", r.raised("NotImplementedError"))


def enc_dict(c, bn=False):
    """an encoded strategy as the SDK returns it"""
    n = lambda v: c.lift({"type": "BigNumber", "hex": c.builtin("hex", v)}) if bn else v
    v = {}
    for o in ("order0", "order1"):
        for k in "yzAB":
            v[o, k] = c.int(o + k, lo=0, rng=(0, 2 ** 54))
    d = {"id": n(83), "token0": "0xaa", "token1": "0xbb", "order0": {k: n(v["order0", k]) for k in "yzAB"}, "order1": {k: n(v["order1", k]) for k in "yzAB"}}
    return c.lift(d), v


@contract("E01", functions=[S1 + "EncodedStrategy." + m for m in ("from_sdk", "token0", "token1", "raw_json", "__getitem__")], samples=200)
def encoded_strategies(c):
    """order0 sells token0 and order1 token1, with the numbers given; raw_json describes the raw data without changing it"""
    d, v = enc_dict(c)
    s = c.call(S1 + "EncodedStrategy.from_sdk", d)
    for o, t in (("order0", "0xaa"), ("order1", "0xbb")):
        e = c.attr(s, o)
        c.ensure(o + " token", c.attr(e, "token") == t and c.attr(s, "token" + o[-1]) == t)
        for k in "yzAB":
            c.ensure(o + " " + k, c.eq(c.attr(e, k), v[o, k]))
    c.ensure("id", c.eq(c.item(s, "id"), 83) and c.eq(c.attr(s, "sid"), 83))
    before = c.snapshot(c.attr(s, "raw"))
    j = c.builtin("json.loads", c.attr(s, "raw_json"))
    c.ensure("json: tokens and id", c.item(j, "token0") == "0xaa" and c.item(j, "token1") == "0xbb" and c.item(j, "id") == "83")
    for o in ("order0", "order1"):
        for k in "yzAB":
            c.ensure("json: " + o + k, c.eq(c.builtin("int", c.item(c.item(j, o), k)), v[o, k]))
    c.ensure("raw data unchanged", c.unchanged(before, c.snapshot(c.attr(s, "raw"))))


# ------------------------------------------------------------------ E02 : market information, maker and taker actions
ETH, USDC, BNT = "0x" + "e" * 40, "0xa0b86991c6218b36c1d19d4a2e9eb0ce3606eb48", "0x1f573d6fb3f13d689ff844b4ce37794d79a7ff1c"
ADDR = {"ETH": ETH, "USDC": USDC, "BNT": BNT, "XYZ": "0x" + "d" * 40}
DEC = {"ETH": 18, "USDC": 6, "BNT": 18, "XYZ": 4}


def tokens(c):
    return c.call(TK + "TokenContainer", c.lift([c.call(TK + "SDKToken", t, a, DEC[t]) for t, a in ADDR.items()]))


def sdk(c, **kw):
    return c.call(SDK, Tokens=tokens(c), disclaimer=False, verbose=False, **kw)


def stub(c, s, name, ret):
    """replace one method of the SDK object by its contract: records what it was asked for and gives an arbitrary answer"""
    calls = []

    def f(*a, **k):
        calls.append((a, k))
        return ret(*a, **k)
    c.setattr(s, name, c.func(f, name))
    return calls


def market_pair(c):
    """a pair in either direction and the token the AMM sells"""
    b, q = c.choice("pair", [("ETH", "USDC"), ("USDC", "ETH"), ("BNT", "ETH"), ("XYZ", "USDC")])
    sell = c.choice("sells", [0, 1])
    return b, q, (b, q)[sell], (q, b)[sell]


@contract("E02", functions=[S1 + "CarbonSDK.mGetRangeByPair", S1 + "CarbonSDK.mGetLiquidityByPair", S1 + "CarbonSDK.mHasLiquidityByPair"], samples=300)
def range_of_a_market(c):
    """asks for the rate target per source where the AMM sells the target; prices are in the convention of the pair, start is the best for the trader"""
    s = sdk(c)
    b, q, tgt, src = market_pair(c)
    lo = c.real("min", gt=0, rng=(1e-6, 1e6))
    hi = lo * c.real("f", lo=1, rng=(1, 10))
    amt = c.real("liq", lo=0, rng=(0, 1e6))
    c1 = stub(c, s, "getMinRateByPair", lambda *a: lo)
    c2 = stub(c, s, "getMaxRateByPair", lambda *a: hi)
    c3 = stub(c, s, "getLiquidityByPair", lambda *a: amt)
    c4 = stub(c, s, "hasLiquidityByPair", lambda *a: True)
    pair = f"{b}/{q}"
    r = c.meth(s, "mGetRangeByPair", pair, tgt)
    want = (ADDR[src], ADDR[tgt])
    c.ensure("rates of target per source", c1 == [(want, {})] and c2 == [(want, {})])
    st, en = c.attr(r, "startRate"), c.attr(r, "endRate")
    ask = tgt == b
    if ask:
        c.ensure("ask: inverted rates", c.And(c.eq(st * hi, 1), c.eq(en * lo, 1)))
        c.ensure("ask: rising", c.le(st, en))
    else:
        c.ensure("bid: the rates", c.And(c.eq(st, hi), c.eq(en, lo)))
        c.ensure("bid: falling", c.le(en, st))
    c.ensure("inverted as compared to the API", c.attr(r, "inverted") == ask)
    c.ensure("labels", c.attr(r, "AMMsells") == tgt and c.attr(r, "AMMbuys") == src and c.attr(r, "bidAsk") == ("ask" if ask else "bid") and c.attr(c.attr(r, "pair"), "slashpair") == pair)
    l = c.meth(s, "mGetLiquidityByPair", pair, tgt)
    c.ensure("liquidity", c3 == [(want, {})] and c.eq(c.attr(l, "amount"), amt))
    c.ensure("liquidity labels", c.attr(l, "unit") == tgt and c.attr(l, "AMMsells") == tgt and c.attr(l, "bidAsk") == ("ask" if ask else "bid"))
    c.ensure("has liquidity", c.meth(s, "mHasLiquidityByPair", pair, tgt) is True and c4 == [(want, {})])


@contract("E02", functions=[S1 + "CarbonSDK.mGetRateLiquidityDepthByPair"], samples=300)
def depth_of_a_market(c):
    """the rate asked for is the price of the pair, converted to target per source; lists element by element"""
    s = sdk(c)
    b, q, tgt, src = market_pair(c)
    n = c.choice("n", [0, 1, 3])      # 0 : a single number
    rs = [c.real(f"r{i}", gt=0, rng=(1e-6, 1e6)) for i in range(max(n, 1))]
    am = [c.real(f"a{i}", lo=0, rng=(0, 1e6)) for i in range(max(n, 1))]
    got = stub(c, s, "getRateLiquidityDepthByPair", lambda *a: am[0] if not n else c.lift(am))
    l = c.meth(s, "mGetRateLiquidityDepthByPair", c.lift(rs) if n else rs[0], f"{b}/{q}", tgt)
    ask = tgt == b
    (a, k), = got
    c.ensure("asked once, target per source", len(got) == 1 and a[:2] == (ADDR[src], ADDR[tgt]) and not k)
    raw = c.items(a[2]) if n else [a[2]]
    c.ensure("as many rates", len(raw) == len(rs))
    for x, y in zip(raw, rs):
        c.ensure("converted rate", c.eq(x * y, 1) if ask else c.eq(x, y))
    amt = c.attr(l, "amount")
    for x, y in zip(c.items(amt) if n else [amt], am):
        c.ensure("amount", c.eq(x, y))
    for x, y in zip(c.items(c.attr(l, "rate")) if n else [c.attr(l, "rate")], rs):
        c.ensure("rate as given", c.eq(x, y))
    c.ensure("labels", c.attr(l, "islist") == bool(n) and c.attr(l, "inverted") == ask and c.attr(l, "unit") == tgt and c.attr(l, "AMMsells") == tgt and c.attr(l, "bidAsk") == ("ask" if ask else "bid"))


@contract("E02", functions=[S1 + "CarbonSDK.mGetMarketByPair"] + [S1 + "MarketByPair." + m for m in ("mid", "spread", "spreadpc", "inverted", "cpair", "price_convention", "liqBidUnit", "liqAskUnit",
          "bidAMMSells", "askAMMSells", "bidTraderSells", "askTraderSells", "ibid", "iask", "iall")], samples=300)
def market_overview(c):
    """bids are what the AMM pays for the base token, asks what it sells it for; mid, spread and interpolation are those of these numbers"""
    s = sdk(c)
    b, q, _, _ = market_pair(c)
    R = {}
    for t in (b, q):
        lo = c.real("min" + t, gt=0, rng=(1e-6, 1e6))
        R[t] = (lo, lo * c.real("f" + t, lo=1, rng=(1, 10)), c.real("liq" + t, lo=0, rng=(0, 1e6)))
    name = {v: k for k, v in ADDR.items()}
    stub(c, s, "getMinRateByPair", lambda src, tgt: R[name[tgt]][0])
    stub(c, s, "getMaxRateByPair", lambda src, tgt: R[name[tgt]][1])
    stub(c, s, "getLiquidityByPair", lambda src, tgt: R[name[tgt]][2])
    m = c.meth(s, "mGetMarketByPair", f"{b}/{q}")
    A = lambda k: c.attr(m, k)
    c.ensure("bid side", c.And(c.eq(A("bestBid"), R[q][1]), c.eq(A("lastBid"), R[q][0]), c.eq(A("liqBid"), R[q][2])))
    c.ensure("ask side", c.And(c.eq(A("bestAsk") * R[b][1], 1), c.eq(A("lastAsk") * R[b][0], 1), c.eq(A("liqAsk"), R[b][2])))
    c.ensure("best before last", c.And(c.le(A("lastBid"), A("bestBid")), c.le(A("bestAsk"), A("lastAsk"))))
    bb, ba = A("bestBid"), A("bestAsk")
    c.ensure("mid", c.eq(A("mid") * 2, bb + ba))
    c.ensure("spread", c.eq(A("spread"), ba - bb, scale=ba + bb))
    c.ensure("spread in percent", c.eq(A("spreadpc") * (bb + ba), 2 * (ba - bb), scale=ba + bb))
    if c.symbolic:
        c.ensure("inverted", c.pyeq(A("inverted"), bb > ba))
    x = c.real("x", rng=(0, 1))
    c.ensure("interpolated bid", c.eq(c.meth(m, "ibid", x), bb * (1 - x) + A("lastBid") * x, scale=bb + A("lastBid")))
    c.ensure("interpolated ask", c.eq(c.meth(m, "iask", x), ba * (1 - x) + A("lastAsk") * x, scale=ba + A("lastAsk")))
    c.ensure("interpolated price", c.eq(c.meth(m, "iall", x), A("lastBid") * (1 - x) + A("lastAsk") * x, scale=ba + A("lastAsk") + A("lastBid")))
    c.ensure("units", A("liqBidUnit") == q and A("liqAskUnit") == b and A("price_convention") == f"{q} per {b}" and A("pair") == f"{b}/{q}")
    c.ensure("tokens sold", A("bidAMMSells") == q and A("askAMMSells") == b and A("bidTraderSells") == b and A("askTraderSells") == q)


@contract("E02", functions=[S1 + "CarbonSDK.mHasLiquidityByPairs", S0 + "hasLiquidityByPair"], samples=100)
def liquidity_of_several_pairs(c):
    """each pair is asked for in both directions, in order, and each answer is reported for the token it is about"""
    s = sdk(c)
    ps = [("ETH", "USDC"), ("BNT", "ETH")]
    kind = c.choice("kind", ["str", "list", "pairs"])
    ans = [c.choice(f"a{i}", [True, False]) for i in range(4)]
    got = stub(c, s, "hasLiquidityByPair", lambda pairs: c.lift(ans))
    arg = "ETH/USDC, BNT/ETH" if kind == "str" else c.lift(["ETH/USDC", "BNT/ETH"]) if kind == "list" else c.lift([c.call("carbon.pair:CarbonPair", "ETH/USDC"), c.call("carbon.pair:CarbonPair", "BNT/ETH")])
    r = c.items(c.meth(s, "mHasLiquidityByPairs", arg))
    asked = [dict(c.dict_items(d)) for d in c.items(got[0][1]["pairs"])]
    c.ensure("one answer per direction", len(got) == 1 and len(asked) == 4 and len(r) == 4)
    for i, ((b, q), tgt) in enumerate([(p, t) for p in ps for t in (p[1], p[0])]):
        src = q if tgt == b else b
        c.ensure("asked in both directions", asked[i] == {"sourceToken": ADDR[src], "targetToken": ADDR[tgt]})
        c.ensure("answer for that direction", c.item(r[i], "AMMsells") == tgt and c.item(r[i], "hasLiquidity") is ans[i] and c.attr(c.item(r[i], "pair"), "slashpair") == f"{b}/{q}")


@contract("E02", functions=[S1 + "CarbonSDK.mCreateStrategy", S0 + "createBuySellStrategy"], samples=300)
def creating_a_strategy(c):
    """the strategy is created on the pair given, selling upwards and buying downwards whichever way the ranges are given; overlapping ranges are refused"""
    s = sdk(c)
    b, q, _, _ = market_pair(c)
    v = {k: c.real(k, gt=0, rng=(1, 100)) for k in ("s1", "s2", "b1", "b2", "bs", "bb")}
    got = stub(c, s, "call", lambda *a, **k: c.record(status_code=200, json=c.func(lambda: c.lift({"data": "tx"}), "json")))
    mx, mn = (lambda x, y: c.If(x >= y, x, y)), (lambda x, y: c.If(x <= y, x, y))
    sl, sh, bl, bh = mn(v["s1"], v["s2"]), mx(v["s1"], v["s2"]), mn(v["b1"], v["b2"]), mx(v["b1"], v["b2"])
    r = c.try_(S1 + "CarbonSDK.mCreateStrategy", s, f"{b}/{q}", v["s1"], v["s2"], v["bs"], v["b1"], v["b2"], v["bb"], None)
    if c.split(sl < bh):
        c.ensure("overlap refused", r.raised("ValueError") and not got)
        return
    if c.split(c.eq(sl, bh)):
        return
    c.ensure("accepted", r.ok and r.value == "tx")
    (a, k), = got
    d = dict(c.dict_items(k["params"]))
    N = lambda x: c.builtin("float", d[x])
    c.ensure("called once, synchronously", len(got) == 1 and a[0] == "create_buy_sell_strategy" and k["sync"] is True)
    c.ensure("on that pair", d["baseToken"] == ADDR[b] and d["quoteToken"] == ADDR[q])
    c.ensure("sell range rising", c.And(c.eq(N("sellPriceLow"), sl), c.eq(N("sellPriceHigh"), sh)))
    c.ensure("buy range", c.And(c.eq(N("buyPriceLow"), bl), c.eq(N("buyPriceHigh"), bh)))
    c.ensure("budgets", c.And(c.eq(N("sellBudget"), v["bs"]), c.eq(N("buyBudget"), v["bb"])))


@contract("E02", functions=[S1 + "CarbonSDK.mPrepareTrade", S1 + "CarbonSDK.mComposeTradeTransaction", S1 + "TradeData.cttkwargs", S1 + "TradeData.cttargs", S0 + "getTradeData",
          S0 + "composeTradeByTargetTransaction", S0 + "composeTradeBySourceTransaction"], samples=300, weight=2)
def preparing_and_composing_a_trade(c):
    """buying is by target and selling by source; the composed transaction allows exactly the given deviation in the trader's disfavour"""
    s = sdk(c)
    b, q, tkn, other = market_pair(c)
    buy = c.bool("buy")
    amt = c.real("amount", gt=0, rng=(1e-3, 1e6))
    ts, tt = c.real("source", gt=0, rng=(1e-3, 1e6)), c.real("target", gt=0, rng=(1e-3, 1e6))
    inp = c.int("input", lo=0, rng=(0, 10 ** 20))
    st = lambda x: c.builtin("str", x)
    data = {"tradeActions": [{"id": 7, "input": {"type": "BigNumber", "hex": c.builtin("hex", inp)}}], "actionsWei": [], "actionsTokenRes": [{"id": 7, "input": st(ts)}],
            "totalSourceAmount": st(ts), "totalTargetAmount": st(tt)}
    got = stub(c, s, "call", lambda *a, **k: c.record(status_code=200, json=c.func(lambda: c.lift({"data": data if a[0] == "get_trade_data" else "tx"}), "json")))
    t = c.meth(s, "mPrepareTrade", f"{b}/{q}", c.attr(s, "BUY") if buy else c.attr(s, "SELL"), tkn, amt)
    src, tgt = (other, tkn) if buy else (tkn, other)
    (a, k), = got
    d = dict(c.dict_items(k["params"]))
    c.ensure("asked for source and target", d["sourceToken"] == ADDR[src] and d["targetToken"] == ADDR[tgt])
    c.ensure("buying is by target", d["tradeByTargetAmount"] is buy and c.attr(t, "tradeByTargetAmount") is buy)
    c.ensure("amount", c.And(c.eq(c.builtin("float", d["amount"]), amt), c.eq(c.attr(t, "amount"), amt)))
    c.ensure("tokens of the trade", c.attr(c.attr(t, "sourceToken"), "T") == src and c.attr(c.attr(t, "targetToken"), "T") == tgt and c.attr(t, "tkn") == tkn and c.attr(t, "pair") == f"{b}/{q}")
    act, = c.items(c.attr(t, "tradeActions"))
    c.ensure("actions decoded", c.And(c.eq(c.item(act, "id"), 7), c.eq(c.item(act, "input"), inp)))
    res, = c.items(c.attr(t, "actionsTokenRes"))
    c.ensure("amounts decoded", c.eq(c.item(res, "input"), ts))
    td = c.attr(t, "tradeData")
    c.ensure("totals decoded", c.And(c.eq(c.item(td, "totalSourceAmount"), ts), c.eq(c.item(td, "totalTargetAmount"), tt)))
    kw = dict(c.dict_items(c.attr(t, "cttkwargs")))
    dev = c.choice("dev", ["default", "given"])
    if dev == "given":
        pc = c.real("dev", lo=0, hi=1, rng=(0, 1))
        kw["maxDeviationPc"] = pc
    else:
        pc = c.rational(1, 10)
    r = c.meth(s, "mComposeTradeTransaction", **kw)
    a, k = got[1]
    d = dict(c.dict_items(k["params"]))
    c.ensure("composed from the prepared trade", len(got) == 2 and r == "tx" and d["sourceToken"] == ADDR[src] and d["targetToken"] == ADDR[tgt])
    c.ensure("right transaction", a[0] == ("compose_trade_by_target_transaction" if buy else "compose_trade_by_source_transaction") and k["sync"] is True)
    act, = c.items(d["tradeActions"])
    c.ensure("actions as strings", c.And(c.eq(c.builtin("int", c.item(act, "input")), inp), c.item(act, "id") == "7"))
    if buy:
        c.ensure("at most the quoted cost plus the deviation", c.eq(c.builtin("float", d["maxInput"]), ts * (1 + pc)))
    else:
        c.ensure("at least the quoted proceeds less the deviation", c.eq(c.builtin("float", d["minReturn"]), tt * (1 - pc), scale=tt))


@contract("E02", functions=[S1 + "CarbonSDK.mPrepareTrade"], samples=150)
def refused_trades(c):
    """unknown directions, foreign tokens and amounts that are not positive are refused before anything is asked"""
    s = sdk(c)
    why = c.choice("why", ["direction", "token", "amount"])
    amt = c.real("amount", gt=0, rng=(1e-3, 1e6))
    got = stub(c, s, "getTradeData", lambda *a, **k: None)
    r = c.try_(S1 + "CarbonSDK.mPrepareTrade", s, "ETH/USDC", "HOLD" if why == "direction" else "BUY", "BNT" if why == "token" else "ETH", -amt if why == "amount" else amt)
    c.ensure("refused", r.raised("ValueError") and not got)


@contract("E02", functions=[S1 + "CarbonSDK.mGetUserStrategies", S0 + "reformatStrategy", S1 + "Strategy.from_sdk", S1 + "Strategy.__post_init__", S1 + "Strategy.__getitem__"], samples=200)
def strategies_of_a_user(c):
    """each strategy arrives with its prices, budgets, tokens and encoded numbers"""
    s = sdk(c)
    n = c.choice("n", [0, 1, 2])
    raw, V = [], []
    for i in range(n):
        v = {k: c.real(f"{k}{i}", gt=0, rng=(1, 1000)) for k in ("buyPriceLow", "buyPriceHigh", "buyBudget", "sellPriceLow", "sellPriceHigh", "sellBudget")}
        e = {(o, k): c.int(f"{o}{k}{i}", lo=0, rng=(0, 2 ** 54)) for o in ("order0", "order1") for k in "yzAB"}
        bn = lambda x: {"type": "BigNumber", "hex": c.builtin("hex", x)}
        d = {"id": bn(83 + i), "baseToken": "0x" + "E" * 40, "quoteToken": USDC}
        d.update({k: c.builtin("str", x) for k, x in v.items()})
        d["encoded"] = {"id": bn(83 + i), "token0": ETH, "token1": USDC, "order0": {k: bn(e["order0", k]) for k in "yzAB"}, "order1": {k: bn(e["order1", k]) for k in "yzAB"}}
        raw.append(d)
        V.append((v, e))
    stub(c, s, "call", lambda *a, **k: c.record(status_code=200, json=c.func(lambda: c.lift({"data": raw}), "json")))
    r = c.items(c.meth(s, "mGetUserStrategies", "0xuser", nsd=None))
    c.ensure("as many strategies", len(r) == n)
    for i, o in enumerate(r):
        v, e = V[i]
        for k, x in v.items():
            c.ensure(k, c.eq(c.attr(o, k), x))
        c.ensure("tokens", c.attr(o, "baseToken") == ETH and c.attr(o, "quoteToken") == USDC and c.attr(o, "baseTokenName") == "ETH" and c.attr(o, "quoteTokenName") == "USDC")
        c.ensure("id", c.And(c.eq(c.attr(o, "sid"), 83 + i), c.eq(c.item(o, "id"), 83 + i), c.eq(c.attr(c.attr(o, "encoded"), "sid"), 83 + i)))
        for (oo, k), x in e.items():
            c.ensure("encoded number", c.eq(c.attr(c.attr(c.attr(o, "encoded"), oo), k), x))


# ------------------------------------------------------------------ E03 : tokens, numbers and transport
@contract("E03", functions=[TK + "SDKToken." + m for m in ("__post_init__", "w2t", "t2w", "a", "T", "d", "isnul", "__iter__")], samples=400)
def token_units(c):
    """wei and tokens differ by the decimals (18 unless given); tokens to wei rounds down by less than one wei"""
    d = c.choice("d", [0, 2, 6, 8, 18, None])
    t = c.call(TK + "SDKToken", " eth ", " 0xEEeeeEeeeEeEeeEeEeEeeEEEeeeeEeeeeeeeEEeE ", d)
    f = 10 ** (18 if d is None else d)
    w = c.int("w", lo=0, rng=(0, 10 ** 12))
    c.ensure("wei to token", c.eq(c.meth(t, "w2t", w) * f, w))
    x = c.real("x", lo=0, rng=(0, 10 ** 6))
    y = c.meth(t, "t2w", x)
    c.ensure("token to wei", c.And(c.isint(y), c.le(c.flt(y), x * f), c.lt(x * f, c.flt(y) + 1, tol=1e-9)))
    c.ensure("attributes", c.attr(t, "T") == "ETH" and c.attr(t, "a") == ETH and c.attr(t, "d") == d and c.attr(t, "name") == "ETH" and not c.attr(t, "isnul"))
    c.ensure("as a tuple", tuple(c.items(t)) == ("ETH", ETH, d, "ETH"))
    c.ensure("an address is a number", c.try_(TK + "SDKToken", "eth", "0xnothex").raised("ValueError"))


@contract("E03", functions=[TK + "TokenContainer." + m for m in ("__init__", "byticker", "byaddr", "byaddr1", "restore", "containsall", "__getitem__", "__len__", "__iter__", "__call__")], samples=200)
def token_registry(c):
    """tokens are found by ticker and address in any spelling, and by nothing else; two tokens never share a ticker or an address"""
    roe = c.choice("raiseonerror", [None, True, False])
    T = c.call(TK + "TokenContainer", c.lift([c.call(TK + "SDKToken", t, a, DEC[t]) for t, a in ADDR.items()]), raiseonerror=roe)
    t = c.choice("t", list(ADDR))
    a = ADDR[t]
    c.ensure("size", c.builtin("len", T) == 4 and [c.attr(x, "T") for x in c.items(T)] == list(ADDR))
    name = t.lower() if c.choice("lower", [0, 1]) else t
    addr = a.upper().replace("X", "x") if c.choice("upper", [0, 1]) else a
    for nm, o in (("byticker", c.meth(T, "byticker", name)), ("item", c.item(T, name)), ("byaddr", c.meth(T, "byaddr", addr)), ("byaddr1", c.meth(T, "byaddr1", addr)), ("call", c.meth(T, "__call__", addr)),
                  ("restore by ticker", c.meth(T, "restore", name)), ("restore by address", c.meth(T, "restore", addr))):
        c.ensure("found: " + nm, c.attr(o, "T") == t and c.attr(o, "a") == a and c.attr(o, "d") == DEC[t])
    c.ensure("name by address", c.meth(T, "byaddr1", addr, tknonly=True) == t)
    o = c.item(T, t)
    c.ensure("a token restores itself", c.meth(T, "restore", o) is o)
    c.ensure("contains all", c.meth(T, "containsall", c.builtin("set", c.lift(["ETH", t]))) and not c.meth(T, "containsall", c.builtin("set", c.lift([t, "NONE"]))))
    r = c.choice("r", [None, True, False])
    strict = (roe is None or roe) if r is None else r
    for m, x in (("byticker", "NONE"), ("byaddr", "0x1234")):
        o = c.try_(TK + "TokenContainer." + m, T, x, raiseonerror=r)
        c.ensure("not found: " + m, o.raised("KeyError") if strict else o.ok and c.attr(o.value, "isnul"))
        if not strict:
            c.ensure("not found, without a null token: " + m, c.meth(T, m, x, raiseonerror=r, returnnultkn=False) is None)
    c.ensure("unknown address kept", c.meth(T, "byaddr1", "0xABCD") == "0xabcd")
    o = c.try_(TK + "TokenContainer.restore", T, "NONE", raiseonerror=r)
    c.ensure("not restored", o.raised("ValueError") if r else o.ok and o.value is None)


@contract("E03", functions=[TK + "TokenContainer.__init__", TK + "TokenContainer.fromcsv", TK + "TokenContainer.fromlist"], samples=200, max_paths=2000)
def duplicate_tokens_are_refused(c):
    """any list of three tokens over two tickers and three addresses: accepted iff no ticker or address stands for two different tokens"""
    L = [(c.choice(f"t{i}", ["A", "B", "C"]), c.choice(f"a{i}", ["0x1", "0x2", "0x3"])) for i in range(3)]
    r = c.try_(TK + "TokenContainer.fromlist", c.lift([(t, a) for t, a in L])) if c.choice("csv", [0, 1]) == 0 else c.try_(TK + "TokenContainer.fromcsv", "\n".join(f" {t.lower()} , {a} , 18" for t, a in L))
    clash = any(x != y and (x[0] == y[0] or x[1] == y[1]) for x in L for y in L)
    c.ensure("accepted iff unambiguous", r.raised("ValueError") if clash else r.ok)
    if r.ok:
        c.ensure("each found", all(c.attr(c.item(r.value, t), "a") == a for t, a in L) and c.builtin("len", r.value) == len(set(L)))


@contract("E03", functions=[SB + m for m in ("bn2int", "int2bn", "bn2intd", "int2str", "int2strd", "str2floatd")], samples=300)
def numbers_of_the_api(c):
    """integers survive the trip to big numbers and back, whatever their size; other values pass unchanged"""
    n = c.int("n", lo=0, rng=(0, 10 ** c.choice("mag", [3, 20, 60])) if not c.symbolic else None)
    x = c.real("x", rng=(-1e6, 1e6))
    b = c.call(SB + "int2bn", n)
    c.ensure("a big number", c.item(b, "type") == "BigNumber")
    c.ensure("round trip", c.eq(c.call(SB + "bn2int", b), n))
    c.ensure("numbers pass", c.And(c.eq(c.call(SB + "bn2int", n), n), c.eq(c.call(SB + "bn2int", x), x), c.call(SB + "bn2int", "abc") == "abc"))
    other = c.lift({"type": "Other", "hex": "0xff"})
    c.ensure("other dicts pass", c.call(SB + "bn2int", other) is other)
    d = dict(c.dict_items(c.call(SDK + ".bn2intd", c.lift({"a": b, "b": x, "c": "s"}))))
    c.ensure("in dicts", c.And(c.eq(d["a"], n), c.eq(d["b"], x), d["c"] == "s", len(d) == 3))
    c.ensure("as strings", c.eq(c.builtin("int", c.call(SB + "int2str", n)), n))
    d = dict(c.dict_items(c.call(SDK + ".int2strd", c.lift({"a": n, "b": x, "c": "s"}))))
    c.ensure("integers only", c.And(c.eq(c.builtin("int", d["a"]), n), c.eq(d["b"], x), d["c"] == "s"))
    d = dict(c.dict_items(c.call(SB + "str2floatd", c.lift({"a": c.builtin("str", x), "b": n}))))
    c.ensure("strings only", c.And(c.eq(d["a"], x), c.eq(d["b"], n)))


@contract("E03", functions=[SB + m for m in ("call", "callapi0", "req", "req0", "join", "__init__")] + [S0 + "_checkresult", S0 + "result"], samples=200)
def requests_and_results(c):
    """requests go to the URL and end point given, synchronously or not as asked or by default; results are handed over, failures raised"""
    dflt, sync = c.choice("default", [None, True, False]), c.choice("sync", [None, True, False])
    s = sdk(c, url="http://x:1/", token="tok", syncdefault=dflt)
    status = c.choice("status", [200, 500])
    ok = c.choice("success", [True, False])
    roe = c.choice("raiseonerror", [True, False])
    c.setattr(s, "raiseonerror", roe)
    resp = c.record(status_code=status, json=c.func(lambda: c.lift({"success": ok, "data": {"result": 42}, "reqid": "id1", "awaiting": False}), "json"))
    got = stub(c, s, "req0", lambda *a, **k: resp)
    eff = (bool(dflt) if sync is None else sync)
    r = c.try_(SDK + ".call", s, "plus", c.lift({"a": 1}), sync=sync)
    (a, k), = got
    c.ensure("end point", a[0] == ("api/scall/plus" if eff else "api/ascall/plus"))
    if eff:
        c.ensure("the response", r.ok and r.value is resp)
        o = c.try_(SDK + "._checkresult", s, r.value)
        c.ensure("data or an error", o.raised("RuntimeError") if status != 200 else o.ok and c.eq(c.item(o.value, "result"), 42))
    elif ok:
        c.ensure("the request id", r.ok and r.value == "id1")
    else:
        c.ensure("failed request", r.raised("ValueError") if roe else r.ok and r.value is False)
    o = c.try_(SDK + ".result", s, "id1")
    c.ensure("result of a request", c.eq(o.value, 42) if ok else o.raised("ValueError") if roe else o.ok and o.value is False)
    c.ensure("asked for that result", got[1][0][0] == "api/result/id1")


@contract("E02", functions=[S0 + m for m in ("getMinRateByPair", "getMaxRateByPair", "getLiquidityByPair", "getRateLiquidityDepthByPair", "getMatchParams", "deleteStrategy", "signsubmittx", "pairs", "addr", "getUserStrategies")],
          samples=200)
def thin_wrappers(c):
    """each wrapper sends its arguments under their names to its end point and returns the data as numbers"""
    own = c.choice("tokens", [True, False])
    s = sdk(c)
    if not own:
        c.setattr(s, "Tokens", None)
    x = c.real("x", gt=0, rng=(1e-6, 1e6))
    rate = c.real("rate", gt=0, rng=(1e-6, 1e6))
    ans = [None]
    rec = lambda *a, **k: c.record(status_code=200, json=c.func(lambda: c.lift({"data": ans[0], "success": True}), "json"))
    got = stub(c, s, "call", rec)
    ans[0] = c.builtin("str", x)
    P = lambda i=-1: dict(c.dict_items(got[i][1]["params"]))
    for m, ep in (("getMinRateByPair", "get_min_rate_by_pair"), ("getMaxRateByPair", "get_max_rate_by_pair"), ("getLiquidityByPair", "get_liquidity_by_pair")):
        c.ensure(m, c.eq(c.meth(s, m, "0x1", "0x2"), x))
        c.ensure(m + " arguments", got[-1][0][0] == ep and got[-1][1]["sync"] is True and P() == {"sourceToken": "0x1", "targetToken": "0x2"})
    c.ensure("depth", c.eq(c.meth(s, "getRateLiquidityDepthByPair", "0x1", "0x2", rate), x))
    c.ensure("depth arguments", P()["sourceToken"] == "0x1" and P()["targetToken"] == "0x2" and c.eq(c.builtin("float", P()["rate"]), rate))
    ans[0] = [c.builtin("str", x), {"error": "none"}]
    r = c.items(c.meth(s, "getRateLiquidityDepthByPair", "0x1", "0x2", c.lift([rate, rate])))
    c.ensure("depth of a list", len(r) == 2 and c.eq(r[0], x))
    c.ensure("no answer for one rate", r[1] is None)
    ans[0] = [[ETH, "0x9999"], [USDC, ETH]]
    r = c.items(c.meth(s, "pairs"))
    if own:
        c.ensure("pairs of tokens", c.attr(c.items(r[0])[0], "T") == "ETH" and c.attr(c.items(r[1])[0], "T") == "USDC" and c.items(r[0])[1] == "0x9999")
    else:
        c.ensure("pairs of addresses", c.items(r[0])[0] == ETH and c.items(r[1])[0] == USDC)
    c.meth(s, "deleteStrategy", 5)
    c.ensure("delete", got[-1][0][0] == "delete_strategy" and P()["strategyId"] == "5")
    c.meth(s, "getMatchParams", "0x1", "0x2", x, True, sync=True)
    c.ensure("match parameters", P()["tradeByTargetAmount"] is True and c.eq(c.builtin("float", P()["amount"]), x))
    got2 = stub(c, s, "req", rec)
    ans[0] = "receipt"
    sign = c.bool("sign")
    c.ensure("receipt", c.meth(s, "signsubmittx", "tx1", sign) == "receipt")
    d = dict(c.dict_items(got2[-1][1]["params"]))
    c.ensure("signed or not as asked", got2[-1][0][0] == "signsubmittx" and set(d) == {"tx", "sign"} and d["tx"] == "tx1" and d["sign"] is sign)


@contract("E02", functions=[S0 + "updateStrategy", S0 + "StrategyUpdate.asdict"], samples=200)
def updating_a_strategy(c):
    """only what is given is sent, and marginal prices separately"""
    s = sdk(c)
    names = ("buyPriceLow", "buyPriceHigh", "buyBudget", "sellPriceLow", "sellPriceHigh", "sellBudget", "buyMarginalPrice", "sellMarginalPrice")
    given = {k: c.real(k, gt=0, rng=(1, 100)) for i, k in enumerate(names) if c.choice("give%d" % (i % 3), [0, 1])}
    u = c.call(S0 + "StrategyUpdate", **given)
    got = stub(c, s, "call", lambda *a, **k: "res")
    c.ensure("response", c.meth(s, "updateStrategy", 7, "enc", ETH, USDC, u) == "res")
    d = dict(c.dict_items(got[0][1]["params"]))
    c.ensure("the strategy", d["strategyId"] == "7" and d["encoded"] == "enc" and d["baseToken"] == ETH and d["quoteToken"] == USDC)
    up = dict(c.dict_items(d["update"]))
    c.ensure("only what is given", set(up) == {k for k in given if "Marginal" not in k})
    for k, v in up.items():
        c.ensure(k, c.eq(c.builtin("float", v), given[k]))
    for k in ("buyMarginalPrice", "sellMarginalPrice"):
        c.ensure(k, c.eq(c.builtin("float", d[k]), given[k]) if k in given else d[k] is None)
    c.ensure("nothing else accepted", c.try_(S0 + "updateStrategy", s, 7, "enc", ETH, USDC, c.lift({})).raised("AssertionError"))


@contract("E03", functions=[SB + "roundsd"], kind="bounded", samples=2000)
def significant_decimals(c):
    """rounding to n significant digits changes a positive number by at most half a unit of the n-th digit; other values pass unchanged (bounded)"""
    n = c.choice("n", [1, 2, 4, 6, 8])
    x = c.real("x", gt=0, rng=(1e-9, 1e12))
    y = c.call(SB + "roundsd", x, n)
    c.ensure("close", abs(y - x) <= 0.5000001 * 10 ** (1 - n) * x)
    c.ensure("stable", abs(c.call(SB + "roundsd", y, n) - y) <= 1e-12 * y)
    c.ensure("zero and text pass", c.call(SB + "roundsd", 0, n) == 0 and c.call(SB + "roundsd", "abc", n) == "abc")
