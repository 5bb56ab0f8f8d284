"""Contracts for the fixed-point trade functions (benchmark/core/trade/impl.py) : T01, T02, T03."""
from pyvc.api import contract, fn_contract

MOD = "core.trade.impl:"
ONE = 2 ** 48
M128 = 2 ** 128 - 1
M256 = 2 ** 256 - 1

SRC = [MOD + "tradeBySourceAmountFunc", MOD + "mulDivF", MOD + "mulDivC", MOD + "mul", MOD + "add", MOD + "check"]
TGT = [MOD + "tradeByTargetAmountFunc", MOD + "mulDivF", MOD + "mulDivC", MOD + "mul", MOD + "add", MOD + "sub", MOD + "check"]


def order_ints(c, big=False):
    """y, z, A, B of an order, any non-negative integers (concretely: realistic sizes)"""
    k = c.choice("size", [40, 64, 100, 128]) if not c.symbolic else 0
    y = c.int("y", 0, rng=(0, 2 ** k) if k else None)
    z = c.int("z", 0, rng=(0, 2 ** k) if k else None)
    A = c.int("A", 0, rng=(0, 2 ** c.choice("asz", [20, 48, 60, 96])) if k else None)
    B = c.int("B", 0, rng=(0, 2 ** c.choice("bsz", [20, 48, 60, 96])) if k else None)
    return y, z, A, B


def amount(c, name="x"):
    return c.int(name, None, None, rng=(-3, 2 ** c.choice("xsz", [20, 48, 64, 100, 128])) if not c.symbolic else None)


def exact_src(c, x, y, z, A, B):
    """numerator and denominator of  x (Ay+Bz)^2 / (A x (Ay+Bz) + z^2)  in fixed point"""
    t = y * A + z * B
    return x * t * t, x * A * t + z * z * ONE * ONE


def exact_tgt(c, x, y, z, A, B):
    """numerator and denominator of  x z^2 / ((Ay+Bz)(Ay+Bz-Ax))"""
    t = y * A + z * B
    return x * z * z * ONE * ONE, t * (t - x * A)


@contract("T01", functions=SRC, samples=1500, weight=2, budget=60)
def by_source_never_overpays(c):
    """any amount, any order: the computed output is a non-negative integer not above the exact curve output"""
    x = amount(c)
    y, z, A, B = order_ints(c)
    o = c.try_(MOD + "tradeBySourceAmountFunc", x, y, z, A, B)
    if not o.ok:
        c.ensure("refusal is an arithmetic-range or division error", o.raised("AssertionError", "ZeroDivisionError"))
        return
    r = o.value
    c.ensure("result is an int", c.isint(r))
    c.ensure("result in range", c.And(r >= 0, r <= M256))
    n, d = exact_src(c, x, y, z, A, B)
    if c.split(c.eq(A, 0)):
        c.ensure("constant-rate order: output <= amount * B^2 / ONE^2", r * (ONE * ONE) <= x * B * B)
    else:
        c.ensure("output <= exact curve output", r * d <= n)


@contract("T01", functions=SRC, samples=1500, weight=2, budget=60)
def by_source_exact_floor(c):
    """when no intermediate exceeds 256 bits the output is exactly the floor of the curve output"""
    x = c.int("x", 0, rng=(0, 2 ** c.choice("xsz", [20, 40, 64])) if not c.symbolic else None)
    y, z, A, B = order_ints(c)
    t = y * A + z * B
    c.assume(c.Or(z > 0, A == 0))
    c.assume(z * z * ONE * ONE <= M256)
    c.assume(t * x * A <= M256)
    c.assume(t * x <= M256)
    c.assume(t <= M256)
    c.assume(B * B <= M256)
    o = c.try_(MOD + "tradeBySourceAmountFunc", x, y, z, A, B)
    n, d = exact_src(c, x, y, z, A, B)
    if c.split(c.eq(A, 0)):
        n, d = x * B * B, ONE * ONE
    if not o.ok:
        c.ensure("refuses only when the result exceeds 256 bits or denominator overflows", c.Or(n > M256 * d, d > M256))
        return
    r = o.value
    if c.split(d <= M256):
        c.ensure("output is the floor of the exact value", c.And(r * d <= n, n < (r + 1) * d))


@contract("T01", functions=SRC, samples=3000, kind="bounded")
def by_source_close_to_exact(c):
    """the loss from scaling is bounded: exact - output <= 4 + exact^2 / (Ay+Bz), i.e. a few units plus a relative 1/(A+B) for an order
    that can pay the output"""
    x = c.int("x", 0, rng=(0, 2 ** c.choice("xsz", [20, 40, 64, 100, 128])) if not c.symbolic else None)
    y, z, A, B = order_ints(c)
    c.assume(c.And(A > 0, z > 0))
    o = c.try_(MOD + "tradeBySourceAmountFunc", x, y, z, A, B)
    if not o.ok:
        return
    r = o.value
    t = y * A + z * B
    n, d = exact_src(c, x, y, z, A, B)
    c.ensure("loss bounded", (n - (r + 4) * d) * d <= x * x * t * t * t)


@contract("T01", functions=[MOD + "tradeBySourceAmount", MOD + "tradeFunc", MOD + "uint128"], samples=1500,
          summaries=[MOD + "decodeFloat"])
def by_source_wrapper(c):
    """encoded order: never raises; result fits 128 bits, is the computed value, or 0 when it cannot be represented"""
    x = amount(c)
    order = enc_order(c)
    A, B = c.call(MOD + "decodeFloat", c.item(order, "A")), c.call(MOD + "decodeFloat", c.item(order, "B"))
    y, z = c.item(order, "y"), c.item(order, "z")
    f = c.try_(MOD + "tradeBySourceAmountFunc", x, y, z, A, B)
    r = c.call(MOD + "tradeBySourceAmount", x, order)
    c.ensure("fits 128 bits", c.And(r >= 0, r <= M128))
    if f.ok:
        c.ensure("value or 0", c.eq(r, c.If(f.value <= M128, f.value, 0)))
        n, d = exact_src(c, x, y, z, A, B)
    else:
        c.ensure("failure yields 0", c.eq(r, 0))


def enc_order(c):
    order = {}
    k = c.choice("size", [40, 64, 100, 128]) if not c.symbolic else 0
    order["y"] = c.int("y", 0, rng=(0, 2 ** k) if k else None)
    order["z"] = c.int("z", 0, rng=(0, 2 ** k) if k else None)
    if c.symbolic:
        order["A"], order["B"] = c.int("A", 0), c.int("B", 0)
    else:
        for n in "AB":
            order[n] = c.int(n, 0, rng=(0, (c.choice("e" + n, [0, 1, 5, 20, 47]) + 1) * ONE - 1))
            c.assume(order[n] < 200 * ONE)
    return c.lift(order)


fn_contract(MOD + "decodeFloat", ["value"], "int",
            pre=lambda c, v: [("value >= 0", v >= 0)],
            post=lambda c, v, r: [("result >= 0", r >= 0)])


# ------------------------------------------------------------------ T02
@contract("T02", functions=TGT, samples=1500, weight=2, budget=60)
def by_target_never_undercharges(c):
    """any target, any order: the required input is a non-negative integer not below the exact curve input"""
    x = amount(c)
    y, z, A, B = order_ints(c)
    o = c.try_(MOD + "tradeByTargetAmountFunc", x, y, z, A, B)
    if not o.ok:
        c.ensure("refusal is an arithmetic-range or division error", o.raised("AssertionError", "ZeroDivisionError"))
        return
    r = o.value
    c.ensure("result is an int", c.isint(r))
    c.ensure("result in range", c.And(r >= 0, r <= M256))
    n, d = exact_tgt(c, x, y, z, A, B)
    if c.split(c.eq(A, 0)):
        c.ensure("constant-rate order: input >= amount * ONE^2 / B^2", r * B * B >= x * (ONE * ONE))
    else:
        c.ensure("the target is inside the curve", d > 0)
        c.ensure("input >= exact curve input", r * d >= n)


@contract("T02", functions=TGT, samples=1500, weight=2, budget=60)
def by_target_exact_ceil(c):
    """when no intermediate exceeds 256 bits the input is exactly the ceiling of the curve input"""
    x = c.int("x", 0, rng=(0, 2 ** c.choice("xsz", [20, 40, 64])) if not c.symbolic else None)
    y, z, A, B = order_ints(c)
    t = y * A + z * B
    c.assume(x * A < t)
    c.assume(z > 0)
    c.assume(z * z * ONE * ONE <= M256)
    c.assume(t * (t - x * A) <= M256)
    c.assume(t <= M256)
    c.assume(B * B <= M256)
    o = c.try_(MOD + "tradeByTargetAmountFunc", x, y, z, A, B)
    n, d = exact_tgt(c, x, y, z, A, B)
    if c.split(c.eq(A, 0)):
        n, d = x * ONE * ONE, B * B
    if not o.ok:
        c.ensure("refuses only when the result exceeds 256 bits", n > M256 * d)
        return
    r = o.value
    c.ensure("input is the ceiling of the exact value", c.And(r * d >= n, n > (r - 1) * d))


@contract("T02", functions=[MOD + "tradeByTargetAmount", MOD + "tradeFunc", MOD + "uint128"], samples=1500,
          summaries=[MOD + "decodeFloat"])
def by_target_wrapper(c):
    """encoded order: never raises; result fits 128 bits, is the computed value, or 2^128-1 when it cannot be represented"""
    x = amount(c)
    order = enc_order(c)
    A, B = c.call(MOD + "decodeFloat", c.item(order, "A")), c.call(MOD + "decodeFloat", c.item(order, "B"))
    y, z = c.item(order, "y"), c.item(order, "z")
    f = c.try_(MOD + "tradeByTargetAmountFunc", x, y, z, A, B)
    r = c.call(MOD + "tradeByTargetAmount", x, order)
    c.ensure("fits 128 bits", c.And(r >= 0, r <= M128))
    if f.ok:
        c.ensure("value or maximum", c.eq(r, c.If(f.value <= M128, f.value, M128)))
    else:
        c.ensure("failure yields the maximum (unaffordable)", c.eq(r, M128))


@contract("T02", functions=SRC + TGT, samples=1500, weight=1, budget=60)
def round_trip_never_profits(c):
    """paying what a target costs and trading it never returns more than exact: buy x, the input r trades back to >= x minus rounding"""
    x = c.int("x", 0, rng=(0, 2 ** c.choice("xsz", [20, 40, 64])) if not c.symbolic else None)
    y, z, A, B = order_ints(c)
    c.assume(c.And(A > 0, z > 0, x <= y))
    o = c.try_(MOD + "tradeByTargetAmountFunc", x, y, z, A, B)
    if not o.ok:
        return
    r = o.value
    n, d = exact_src(c, r, y, z, A, B)
    c.ensure("the exact curve output for the charged input covers the target", n >= x * d)


# ------------------------------------------------------------------ T03
@contract("T03", functions=[MOD + "encodeFloat", MOD + "decodeFloat", MOD + "bitLength"], samples=2000, budget=40)
def float_round_trip(c):
    """decode(encode(v)) <= v, exact below 2^48, relative loss below 2^-47, stable under re-encoding"""
    v = c.int("v", 0, rng=(0, 2 ** c.choice("vsz", [10, 48, 49, 60, 96, 128])) if not c.symbolic else None)
    e = c.call(MOD + "encodeFloat", v)
    r = c.call(MOD + "decodeFloat", e)
    c.ensure("encoding is a non-negative int", c.And(c.isint(e), e >= 0))
    c.ensure("not above the value", c.And(r <= v, r >= 0))
    c.ensure("relative loss < 2^-47", (v - r) * 2 ** 47 <= v)
    c.ensure("exact below 2^48", c.Implies(v < ONE, c.eq(r, v)))


@contract("T03", functions=[MOD + "encodeRate", MOD + "decodeRate", MOD + "bitLength"], samples=2000, budget=40)
def rate_round_trip(c):
    """decoded rate is not above the rate and loses less than 2^-46 relative plus 2 * sqrt(rate) / 2^48"""
    v = c.real("v", lo=0, rng=(1e-9, 10.0 ** c.choice("vexp", [3, 12, 24, 36])) if not c.symbolic else None)
    e = c.call(MOD + "encodeRate", c.dec(v))
    c.ensure("encoding is a non-negative int", c.And(c.isint(e), e >= 0))
    s = c.sqrt(v)
    r = c.call(MOD + "decodeRate", c.dec(e) if not c.symbolic else e)
    c.ensure("not above the rate", c.le(c.flt(r), v) if c.symbolic else r <= c.dec(v))
    c.ensure("sqrt loses less than one unit plus 2^-47 relative", c.And(c.le(e, s * ONE), c.lt(s * ONE, e + 1 + s * ONE / 2 ** 47, tol=1e-12)))


@contract("T03", functions=[MOD + "encodeRate", MOD + "bitLength"], samples=1500)
def rate_encoding_is_monotone(c):
    """a higher rate never has a lower encoding (used by order_encoding)"""
    v = c.real("v", lo=0, rng=(1e-9, 10.0 ** c.choice("vexp", [3, 12, 24])) if not c.symbolic else None)
    f = c.real("f", lo=1, rng=(1, 1 + 10.0 ** c.choice("fexp", [-12, -6, 0, 3])) if not c.symbolic else None)
    w = v * f
    if not c.symbolic:
        c.ensure("monotone", c.call(MOD + "encodeRate", c.dec(v)) <= c.call(MOD + "encodeRate", c.dec(w)))
        return
    s1, s2 = c.sqrt(v), c.sqrt(w)
    c.ensure("square root monotone", c.le(s1, s2))
    c.assume(s1 <= s2)
    d1, d2 = c.floor(s1 * ONE), c.floor(s2 * ONE)
    c.ensure("integer part monotone", d1 <= d2)
    c.assume(d1 <= d2)
    n1, n2 = [c.call(MOD + "bitLength", c.op("//", d, ONE).value) for d in (d1, d2)]
    e1, e2 = c.call(MOD + "encodeRate", v), c.call(MOD + "encodeRate", w)
    c.ensure("number of bits monotone", n1 <= n2)
    c.assume(n1 <= n2)
    if c.split(c.eq(n1, n2)):
        c.ensure("monotone, same number of bits", e1 <= e2)
    else:
        for nm, step in (("between the powers of two, below", e1 < ONE * c.pow2(n1)), ("between the powers of two, above", 2 * e2 >= ONE * c.pow2(n2)),
                         ("powers of two", c.pow2(n2) >= 2 * c.pow2(n1))):
            c.ensure(nm, step)      # steps of the argument: shown, then used
            c.assume(step)
        c.ensure("monotone", e1 <= e2)


@contract("T03", functions=[MOD + "encodeOrder", MOD + "decodeOrder", MOD + "encodeRate", MOD + "encodeFloat"], samples=1500, budget=40,
          summaries=[MOD + "encodeRate"])
def order_encoding(c):
    """encoded orders: capacity z >= liquidity y, equality exactly at the top of the range"""
    y = c.real("liq", lo=0, rng=(0, 1e24))
    lo = c.real("low", gt=0, rng=(1e-6, 10.0 ** c.choice("lexp", [6, 28])) if not c.symbolic else None)
    f1 = c.real("f1", lo=1, rng=(1, 10))
    f2 = c.real("f2", lo=1, rng=(1, 10))
    m, h = lo * f1, lo * f1 * f2
    o = c.lift({"liquidity": c.dec(y), "lowestRate": c.dec(lo), "highestRate": c.dec(h), "marginalRate": c.dec(m)})
    L, H, M = [c.call(MOD + "encodeRate", c.dec(v)) for v in (lo, h, m)]
    c.assume(c.Or(L < M, c.eq(H, M)))
    c.assume(c.And(L <= M, M <= H))
    e = c.call(MOD + "encodeOrder", o)
    c.ensure("liquidity is truncated to an int", c.And(c.isint(c.item(e, "y")), c.eq(c.item(e, "y"), c.floor(y), tol=1e-15)))
    z, yy = c.item(e, "z"), c.item(e, "y")
    c.ensure("capacity >= liquidity", z >= yy)
    c.ensure("at the highest rate capacity equals liquidity", c.Implies(c.eq(H, M), c.eq(z, yy)))
    c.ensure("capacity = liquidity * range / distance, rounded down",
             c.Implies(H > M, c.And(z * (M - L) <= yy * (H - L), (z + 1) * (M - L) > yy * (H - L))))


fn_contract(MOD + "encodeRate", ["value"], "int",
            pre=lambda c, v: [("value >= 0", v >= 0)],
            post=lambda c, v, r: [("result >= 0", r >= 0)])


@contract("T03", functions=[MOD + "decodeOrder", MOD + "decodeRate", MOD + "decodeFloat"], samples=1500, budget=40,
          summaries=[MOD + "decodeFloat"])
def order_decoding(c):
    """decoded orders: liquidity kept, lowest <= marginal <= highest, equality at the ends of the range"""
    order = enc_order(c)
    y, z = c.item(order, "y"), c.item(order, "z")
    c.assume(c.And(z >= y, z > 0))
    A, B = c.call(MOD + "decodeFloat", c.item(order, "A")), c.call(MOD + "decodeFloat", c.item(order, "B"))
    d = c.call(MOD + "decodeOrder", order)
    lo, hi, ma = [c.item(d, k) for k in ("lowestRate", "highestRate", "marginalRate")]
    c.ensure("liquidity kept", c.eq(c.item(d, "liquidity"), y))
    c.ensure("lowest <= marginal <= highest", c.And(c.le(c.flt(lo), c.flt(ma)), c.le(c.flt(ma), c.flt(hi))))
    c.ensure("full order trades at the highest rate", c.Implies(c.eq(y, z), c.eq(ma, hi)))
    c.ensure("lowest rate is (B/ONE)^2", c.eq(c.flt(lo), c.div(c.flt(B) * c.flt(B), ONE * ONE)))
    c.ensure("highest rate is ((A+B)/ONE)^2", c.eq(c.flt(hi), c.div(c.flt(A + B) * c.flt(A + B), ONE * ONE)))
    lo, hi, ma = c.flt(lo), c.flt(hi), c.flt(ma)
    c.ensure("empty order trades at the lowest rate", c.Implies(c.eq(y, 0), c.eq(ma, lo)))
