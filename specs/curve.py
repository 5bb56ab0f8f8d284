"""Contracts for the carbon curve as used by UI and simulations (carbon/carbon_order_ui.py) : C01..C04."""
from pyvc.api import contract

M = "carbon.carbon_order_ui:"
U = M + "CarbonOrderUI."


def curve(c, y=None, smin=None, bmin=None, tkn=None, pre="", full=False, yint_ok0=False):
    """any valid, non-disabled curve: B >= 0 (here > 0), S >= 0, 0 <= y <= yint, yint > 0; both token sides"""
    B = c.real(pre + "B", gt=0, rng=(1e-2, 1e2))
    S = c.real(pre + "S", gt=0, rng=(1e-3, 1e2)) if smin else c.real(pre + "S", lo=0, rng=(1e-3, 1e2))
    yint = c.real(pre + "yint", lo=0, rng=(1, 1e5)) if yint_ok0 else c.real(pre + "yint", gt=0, rng=(1, 1e5))
    if full:
        y = yint
    else:
        f = c.real(pre + "y_frac", lo=0, hi=1)
        y = yint * f
    tkn = tkn or c.choice(pre + "tkn", ["ETH", "USDC"])
    o = c.call(M + "CarbonOrderUI", "ETH/USDC", tkn, B, S, yint, y)
    return o, B, S, yint, y


def side(c, o):
    """True if the curve sells the quote token, so that quoted prices are native prices"""
    return c.meth(c.attr(o, "pair"), "has_quotetoken", c.attr(o, "tkn"))


def X(c, y, B, S, yint):
    """reference: x(y) on the curve  (yint - y) yint / ((B yint + S y)(B + S))"""
    return c.div(yint * (yint - y), (B * yint + S * y) * (B + S))


# ------------------------------------------------------------------------------------------------ C01
@contract("C01", functions=[U + "dyfromdx_f", U + "xfromy_f"], samples=600, budget=60)
def receive_dx_stays_on_curve(c):
    """for every dx >= 0 the AMM can absorb: dy >= 0, dy <= y, and the invariant point moves by exactly dx in x and dy in y"""
    o, B, S, yint, y = curve(c)
    dx = c.real("dx", lo=0, rng=(1e-3, 1e4))
    x0 = X(c, y, B, S, yint)
    c.assume(dx <= c.div(yint, B * (B + S)) - x0)
    dy = c.meth(o, "dyfromdx_f", dx)
    c.ensure("output is a number", dy is not None)
    if dy is None:
        return
    c.ensure("output non-negative", dy >= 0)
    c.ensure("output within liquidity", c.le(dy, y, scale=yint, tol=1e-9))
    # dx in closed form: dx = dy yint^2 / ((Sy+Byint)(Sy+Byint-S dy))
    t = S * y + B * yint
    c.ensure("pair (dx, dy) on the invariant", c.eq(dy * (S * dx * t + yint * yint), dx * t * t))
    c.ensure("zero in, zero out", c.Implies(c.eq(dx, 0), c.eq(dy, 0)))
    c.ensure("something in, something out", c.Implies(c.And(dx > 0), dy > 0))


@contract("C01", functions=[U + "dxfromdy_f", U + "xfromy_f"], samples=600, budget=60)
def sell_dy_stays_on_curve(c):
    """for every 0 <= dy <= y: dx >= 0 and x(y - dy) - x(y) = dx"""
    o, B, S, yint, y = curve(c)
    f = c.real("f", lo=0, hi=1)
    dy = y * f
    dx = c.meth(o, "dxfromdy_f", dy)
    c.ensure("output is a number", dx is not None)
    if dx is None:
        return
    c.ensure("output non-negative", dx >= 0)
    t = S * y + B * yint
    c.ensure("pair (dx, dy) on the invariant", c.eq(dx * t * (t - S * dy), dy * yint * yint))
    x1 = c.meth(o, "xfromy_f", y - dy)
    x0 = c.meth(o, "xfromy_f", y)
    if x1 is None or x0 is None:
        c.ensure("points of the curve exist", not c.symbolic and False)
        return
    c.ensure("x moves by dx", c.eq(x1 - x0, dx, scale=x1, tol=1e-7))


@contract("C01", functions=[U + "dxfromdy_f", U + "dyfromdx_f"], samples=600, budget=60)
def swap_functions_inverse(c):
    """dyfromdx(dxfromdy(dy)) = dy and dxfromdy(dyfromdx(dx)) = dx, whatever the sign when bounds checking is off"""
    o, B, S, yint, y = curve(c)
    f = c.real("f", hi=1, rng=(-3, 1))
    dy = y * f
    dx = c.meth(o, "dxfromdy_f", dy, checkbounds=False)
    c.ensure("same sign", c.And(c.Implies(dy >= 0, dx >= 0), c.Implies(dy <= 0, dx <= 0)))
    dy2 = c.meth(o, "dyfromdx_f", dx, checkbounds=False)
    c.ensure("round trip from dy", c.eq(dy2, dy, tol=1e-6))


@contract("C01", functions=[U + "dxfromdy_f", U + "dyfromdx_f"], samples=400, budget=60)
def swap_path_independent(c):
    """selling dy1 and then dy2 receives the same x as selling dy1 + dy2 at once; later units are never cheaper for the trader"""
    o, B, S, yint, y = curve(c)
    f1 = c.real("f1", lo=0, hi=1)
    f2 = c.real("f2", lo=0, hi=1)
    dy1 = y * f1
    dy2 = (y - dy1) * f2
    a = c.meth(o, "dxfromdy_f", dy1, checkbounds=False)
    both = c.meth(o, "dxfromdy_f", dy1 + dy2, checkbounds=False)
    c.setattr(o, "y", y - dy1)
    b = c.meth(o, "dxfromdy_f", dy2, checkbounds=False)
    c.ensure("additive", c.eq(a + b, both, tol=1e-6))
    c.setattr(o, "y", y)
    b0 = c.meth(o, "dxfromdy_f", dy2, checkbounds=False)
    c.ensure("price impact is never negative", c.ge(b, b0, tol=1e-9))


@contract("C01", functions=[U + "xfromy_f", U + "yfromx_f", U + "xint", U + "x"], samples=600, budget=60)
def invariant_functions_inverse(c):
    """x(y) and y(x) are inverse, decreasing, and hit the intercepts"""
    o, B, S, yint, y = curve(c)
    x = c.meth(o, "xfromy_f", y)
    c.ensure("x defined", x is not None)
    if x is None:
        return
    c.ensure("x matches the invariant", c.eq(x * (B * yint + S * y) * (B + S), yint * (yint - y), scale=yint * yint, tol=1e-9))
    xint = c.attr(o, "xint")
    c.ensure("intercept", c.eq(xint * B * (B + S), yint))
    c.ensure("0 <= x <= xint", c.And(x >= 0, c.le(x, xint, tol=1e-9)))
    c.ensure("x at the current state", c.eq(c.attr(o, "x"), x))
    y2 = c.meth(o, "yfromx_f", x, checkbounds=False)
    c.ensure("y(x(y)) = y", c.eq(y2, y, scale=yint, tol=1e-7))
    y3 = c.meth(o, "yfromx_f", xint, checkbounds=False)
    c.ensure("y(xint) = 0", c.eq(y3, 0, scale=yint, tol=1e-9))
    y4 = c.meth(o, "yfromx_f", 0)
    c.ensure("y(0) = yint", c.eq(y4, yint))


@contract("C01", functions=[U + "xfromy_f", U + "yfromx_f"], samples=400, budget=60)
def invariant_functions_monotone(c):
    """more y on the curve means less x, and x(y) lies on (x - xasym)(y - yasym) = kappa"""
    o, B, S, yint, y = curve(c)
    f = c.real("f", lo=0, hi=1)
    ya = y * f
    xa, xb = c.meth(o, "xfromy_f", ya), c.meth(o, "xfromy_f", y)
    c.ensure("decreasing", c.ge(xa, xb, tol=1e-9))
    dx = c.real("dx", lo=0, rng=(1e-3, 1e3))
    yb = c.meth(o, "yfromx_f", xb, checkbounds=False)
    yc = c.meth(o, "yfromx_f", xb + dx, checkbounds=False)
    c.ensure("y(x) decreasing", c.le(yc, yb, scale=yint, tol=1e-9))


@contract("C01", functions=[U + "dyfromdx_f", U + "dxfromdy_f", U + "xfromy_f", U + "yfromx_f"], samples=600, budget=60)
def out_of_range_requests_refused(c):
    """requests outside the range are refused: None by default, a ValueError when errors are asked for; never a number, never a crash"""
    o, B, S, yint, y = curve(c)
    fn = c.choice("fn", ["dyfromdx neg", "dyfromdx big", "dxfromdy neg", "dxfromdy big", "xfromy big", "xfromy neg", "yfromx neg", "yfromx big"])
    r = c.bool("raiseonerror")
    e = c.real("e", gt=0, rng=(1e-3, 1e8))
    name, how = fn.split()
    if how == "neg":
        v = -e
    elif name == "dyfromdx":
        v = e
        t = S * y + B * yint        # more than the liquidity, beyond the documented rounding slack
        c.assume(v * t * t > (y + (1 + y) * c.rational(1, 10 ** 9)) * (S * v * t + yint * yint))
    elif name == "dxfromdy":
        v = y + e
        c.assume(e > y * c.rational(1, 1000000))
    elif name == "xfromy":
        v = yint + e
        c.assume(e > y * c.rational(1, 1000000))
    else:
        v = c.div(yint, B * (B + S)) + e
        c.assume(e * B * (B + S) > yint * c.rational(1, 1000000))
    out = c.try_meth(o, name + "_f", v, raiseonerror=r)
    if r:
        c.ensure("refused with ValueError", not out.ok and out.raised("ValueError"))
    else:
        c.ensure("refused with None", out.ok and out.value is None)


@contract("C01", functions=[U + "dyfromdx_f", U + "dxfromdy_f", U + "xfromy_f", U + "yfromx_f", U + "p_marg_f", U + "p_eff_f", U + "yfromp_f", U + "dyfromp_f"],
          samples=300, budget=60)
def queries_do_not_modify(c):
    """the pricing queries leave the curve and its linked curve as they were"""
    o, B, S, yint, y = curve(c, smin=1)
    o2, _, _, _, _ = curve(c, pre="l_", tkn="ETH")
    c.meth(o, "set_linked", o2)
    s0 = c.snapshot(o)
    v = c.real("v", lo=0, rng=(1e-3, 1e5))
    fn = c.choice("fn", ["dyfromdx_f", "dxfromdy_f", "xfromy_f", "yfromx_f", "p_marg_f", "p_eff_f", "dyfromp_f", "yfromp_f"])
    if fn in ("dyfromp_f", "yfromp_f"):
        c.assume(v > 0)
    out = c.try_meth(o, fn, v)
    c.ensure("no crash", out.ok)
    c.ensure("nothing changed", c.unchanged(s0, c.snapshot(o)))


@contract("C01", functions=[U + "dyfromdx_f", U + "dxfromdy_f", U + "dyfromp_f", U + "p_marg_f", U + "p_eff_f", U + "liquidity_approx", U + "__post_init__"], samples=200, budget=30)
def empty_curve_never_trades(c):
    """a curve with B = S = 0 is disabled: it quotes nothing, trades nothing, has no liquidity"""
    tkn = c.choice("tkn", ["ETH", "USDC"])
    yint = c.real("yint", gt=0, rng=(1, 1e5))
    y = yint * c.real("f", lo=0, hi=1)
    o = c.call(M + "CarbonOrderUI", "ETH/USDC", tkn, 0, 0, yint, y)
    v = c.real("v", gt=0, rng=(1e-3, 1e5))
    c.ensure("disabled", c.attr(o, "disabled") is True)
    for fn in ("dyfromdx_f", "dxfromdy_f", "dyfromp_f"):
        a = c.try_meth(o, fn, v)
        c.ensure(fn + " is 0", a.ok and c.eq(a.value, 0))
        a = c.try_meth(o, fn, v, raiseonerror=True)
        c.ensure(fn + " raises", a.raised("ValueError"))
    for fn in ("p_marg_f", "p_eff_f"):
        a = c.try_meth(o, fn, v)
        c.ensure(fn + " is None", a.ok and a.value is None)
    a = c.try_meth(o, "liquidity_approx", v, v + 1)
    c.ensure("no liquidity", a.ok and c.eq(a.value, 0))
    c.ensure("no price range", c.attr(o, "pmin") is None and c.attr(o, "pmax") is None)


# ------------------------------------------------------------------------------------------------ C02
@contract("C02", functions=[U + "p_marg_f", U + "p_marg", U + "__post_init__"], samples=600, budget=60)
def marginal_price_within_range(c):
    """marginal price stays between the end and start price, reaches them at the ends, moves monotonically with dy"""
    o, B, S, yint, y = curve(c)
    f = c.real("f", lo=0, hi=1)
    native = side(c, o)
    dy = y * f
    p0 = c.attr(o, "p_marg")
    p1 = c.meth(o, "p_marg_f", dy)
    c.ensure("defined", p0 is not None and p1 is not None)
    pa, pb = c.attr(o, "pa"), c.attr(o, "pb")
    c.ensure("start price", c.eq(pa, (B + S) * (B + S) if native else c.div(1, (B + S) * (B + S))))
    c.ensure("end price", c.eq(pb, B * B if native else c.div(1, B * B)))
    c.ensure("raw start and end", c.And(c.eq(c.attr(o, "pa_raw"), (B + S) * (B + S)), c.eq(c.attr(o, "pb_raw"), B * B)))
    c.ensure("min <= max", c.And(c.attr(o, "pmin") <= c.attr(o, "pmax"), c.Or(c.And(c.eq(c.attr(o, "pmin"), pa), c.eq(c.attr(o, "pmax"), pb)),
             c.And(c.eq(c.attr(o, "pmin"), pb), c.eq(c.attr(o, "pmax"), pa)))))
    lo, hi = (p1, p0) if native else (p0, p1)
    c.ensure("monotone in dy", c.le(lo, hi, tol=1e-9))
    c.ensure("within range", c.And(c.le(c.attr(o, "pmin"), p1, tol=1e-9), c.le(p1, c.attr(o, "pmax"), tol=1e-9)))
    q = (B * yint + S * (y - dy)) * (B * yint + S * (y - dy))
    c.ensure("marginal price is the curve slope", c.eq(p1 * yint * yint, q) if native else c.eq(p1 * q, yint * yint))
    p2 = c.meth(o, "p_marg_f", 0, fullcurve=True)
    c.ensure("full curve starts at the start price", c.eq(p2, pa))
    p3 = c.meth(o, "p_marg_f", y)
    c.ensure("empty curve ends at the end price", c.eq(p3, pb))


@contract("C02", functions=[U + "p_eff_f", U + "p_marg_f"], samples=600, budget=80, weight=2)
def effective_price_between_marginals(c):
    """the effective price of a sale is the geometric mean of the marginal prices before and after it, and matches the swap function"""
    o, B, S, yint, y = curve(c)
    f = c.real("f", lo=0, hi=1)
    native = side(c, o)
    full = c.bool("fullcurve")
    start = yint if full else y
    dy = start * f
    pe = c.meth(o, "p_eff_f", dy, fullcurve=full)
    c.ensure("defined", pe is not None)
    if pe is None:
        return
    t = B * yint + S * start
    u = t - S * dy
    e = pe if native else c.div(1, pe)
    c.ensure("geometric mean of the marginal prices", c.eq(e * yint * yint, t * u, tol=1e-5))
    pm = c.meth(o, "p_marg_f", dy, fullcurve=full)
    c.ensure("marginal price after the sale", pm is not None and (c.eq(pm * yint * yint, u * u, tol=1e-5) if native else c.eq(yint * yint, pm * u * u, tol=1e-5)))
    if not full and c.split(dy > 0):
        dx = c.meth(o, "dxfromdy_f", dy, checkbounds=False)
        c.ensure("matches the swap", c.eq(dx * e, dy, tol=1e-5))


@contract("C02", functions=[U + "p_eff_f", U + "p_marg_f"], samples=400, budget=60)
def price_queries_refuse_out_of_range(c):
    """negative and excessive amounts are refused by the price functions: None, or ValueError if asked"""
    o, B, S, yint, y = curve(c)
    fn = c.choice("fn", ["p_marg_f", "p_eff_f"])
    r = c.bool("raiseonerror")
    full = c.bool("fullcurve")
    e = c.real("e", gt=0, rng=(1e-3, 1e3))
    v = -e if c.bool("negative") else ((yint if full else y) + e)
    c.assume(v + e != yint + e)
    out = c.try_meth(o, fn, v, fullcurve=full, raiseonerror=r)
    if r:
        c.ensure("refused with ValueError", out.raised("ValueError"))
    else:
        c.ensure("refused with None", out.ok and out.value is None)


@contract("C02", functions=[U + "yfromp_f", U + "dyfromp_f", U + "p_marg_f"], samples=600, budget=80)
def price_target_inverse(c):
    """the amount to reach a target price reaches exactly that price; targets beyond the end sell everything, beyond the marginal sell nothing"""
    o, B, S, yint, y = curve(c, smin=1)
    native = side(c, o)
    k = c.real("k", gt=0, rng=(1e-3, 1e3))          # native square-root price
    p = k * k if native else c.div(1, k * k)
    dy = c.meth(o, "dyfromp_f", p)
    c.ensure("number", dy is not None)
    m = B + c.div(S * y, yint)
    if c.split(k < B):
        c.ensure("beyond the end: everything", c.eq(dy, y))
        c.ensure("yfromp is zero", c.eq(c.meth(o, "yfromp_f", p), 0))
        out = c.try_meth(o, "yfromp_f", p, raiseonerror=True)
        c.ensure("raises if asked", out.raised("PriceOutOfBoundsErrorBeyondEnd") and out.raised("ValueError") if not near(c, k, B) else True)
        return
    if c.split(k > m):
        c.ensure("beyond the marginal price: nothing", c.eq(dy, 0, scale=yint, tol=1e-7))
        out = c.try_meth(o, "yfromp_f", p, raiseonerror=True)
        c.ensure("raises if asked", out.raised("PriceOutOfBoundsErrorBeyondStart", "PriceOutOfBoundsErrorBeyondMarg") if not near(c, k, m) else True)
        return
    c.assume(c.And(dy >= 0))
    c.ensure("in range", c.And(dy >= 0, c.le(dy, y, scale=yint, tol=1e-9)))
    c.ensure("closed form", c.eq((y - dy) * S, (k - B) * yint, scale=yint * (k + B), tol=1e-6))
    pm = c.meth(o, "p_marg_f", dy, checkbounds=False)
    c.ensure("reaches the target price", c.eq(pm, p, tol=1e-5))


def near(c, a, b):
    return (not c.symbolic) and abs(a - b) <= 1e-9 * max(abs(a), abs(b))


@contract("C02", functions=[U + "Q", U + "Gamma", U + "x0", U + "y0", U + "p0_raw", U + "xasym", U + "yasym", U + "kappa", U + "kappa_bar",
                            U + "leverage_fctr", U + "asym_over_0", U + "int_over_0", U + "Q_from_Gamma", U + "Gamma_from_Q"], samples=400, budget=120, weight=2)
def shape_parameters_consistent(c):
    """the shape parameters describe the same curve: (x - xasym)(y - yasym) = kappa at the current point, intercepts recovered"""
    # parametrise by Gamma so that the square roots are exact: Q = q^2, pb = Q^2 pa
    q = c.real("q", gt=0, lt=1, rng=(0.5, 0.999))
    pa = c.real("sa", gt=0, rng=(1e-2, 1e2))
    B = q * q * pa
    S = pa - B
    yint = c.real("yint", gt=0, rng=(1, 1e5))
    y = yint * c.real("y_frac", lo=0, hi=1)
    o = c.call(M + "CarbonOrderUI", "ETH/USDC", c.choice("tkn", ["ETH", "USDC"]), B, S, yint, y)
    c.ensure("Q", c.eq(c.attr(o, "Q"), q * q))
    G = c.attr(o, "Gamma")
    c.ensure("Gamma", c.eq(G, 1 - q, scale=1))
    xint = c.attr(o, "xint")
    x0, y0 = c.attr(o, "x0"), c.attr(o, "y0")
    c.ensure("x0", c.eq(x0 * (1 + q), xint * q))
    c.ensure("y0", c.eq(y0 * (1 + q), yint * q))
    xa, ya, k = c.attr(o, "xasym"), c.attr(o, "yasym"), c.attr(o, "kappa")
    c.ensure("asymptotes negative", c.And(xa < 0, ya < 0))
    c.ensure("x asymptote", c.eq(xa * (1 - q), -x0 * q, tol=1e-4))
    c.ensure("y asymptote", c.eq(ya * (1 - q), -y0 * q, tol=1e-4))
    c.ensure("kappa", c.eq(k * (1 - q) * (1 - q), x0 * y0, tol=1e-4))
    x = c.meth(o, "xfromy_f", y)
    c.ensure("the current point satisfies the hyperbola", c.eq((x - xa) * (y - ya), k, tol=1e-4))
    kb = c.attr(o, "kappa_bar")
    c.ensure("kappa_bar squared is kappa", c.eq(kb * kb, k, tol=1e-4))
    c.ensure("leverage", c.eq(c.attr(o, "leverage_fctr") * (1 - q), 1, tol=1e-4))
    c.ensure("p0_raw", c.eq(c.attr(o, "p0_raw") * xint, yint))
    c.ensure("Q_from_Gamma", c.eq(c.call(U + "Q_from_Gamma", 1 - q), q * q))
    c.ensure("asym_over_0", c.eq(c.call(U + "asym_over_0", 1 - q) * (1 - q), -q))
    c.ensure("int_over_0", c.eq(c.call(U + "int_over_0", 1 - q) * q, 1 + q))


@contract("C02", functions=[U + "p0", U + "widthr", U + "widthpc", U + "px", U + "py", U + "A", U + "z", U + "tkny", U + "tknx", U + "total_liquidity",
                            U + "price_convention", U + "bidask"], samples=300, budget=60)
def price_range_attributes(c):
    """derived price attributes: p0 is the geometric mean, widths from min and max, aliases agree"""
    o, B, S, yint, y = curve(c)
    p0 = c.attr(o, "p0")
    mn, mx = c.attr(o, "pmin"), c.attr(o, "pmax")
    c.ensure("p0 geometric mean", c.And(p0 >= 0, c.eq(p0 * p0, mn * mx)))
    c.ensure("width ratio", c.eq(c.attr(o, "widthr") * mn, mx))
    c.ensure("width percentage", c.eq(c.attr(o, "widthpc") * p0, mx - mn, scale=mx, tol=1e-9))
    c.ensure("aliases", c.And(c.eq(c.attr(o, "px"), c.attr(o, "pb")), c.eq(c.attr(o, "py"), c.attr(o, "pa")), c.eq(c.attr(o, "p_start"), c.attr(o, "pa")),
                              c.eq(c.attr(o, "p_end"), c.attr(o, "pb")), c.eq(c.attr(o, "A"), S), c.eq(c.attr(o, "z"), yint)))
    t = c.attr(o, "tkn")
    c.ensure("tokens", c.And(c.is_str_eq(c.attr(o, "tkny"), t), c.is_str_eq(c.attr(o, "tknx"), "ETH" if c.is_str_eq(t, "USDC") else "USDC")))
    tl = c.attr(o, "total_liquidity")
    c.ensure("liquidity", c.And(c.eq(c.item(tl, 0), y), c.is_str_eq(c.item(tl, 1), t)))
    c.ensure("side", c.is_str_eq(c.attr(o, "bidask"), "BID" if c.is_str_eq(t, "ETH") else "ASK"))


@contract("C02", functions=[U + "liquidity_approx", "carbon.pair:CarbonPair.convert"], samples=500, budget=90)
def range_liquidity(c):
    """liquidity in a price range is between nothing and everything, symmetric in its ends, additive as a percentage, total over the full range"""
    o, B, S, yint, y = curve(c, smin=1)
    p1 = c.real("p1", gt=0, rng=(1e-4, 1e4))
    p2 = p1 * c.real("r2", lo=1, rng=(1, 100))
    p3 = p2 * c.real("r3", lo=1, rng=(1, 100))
    a = c.meth(o, "liquidity_approx", p1, p2, asperc=True)
    b = c.meth(o, "liquidity_approx", p2, p3, asperc=True)
    t = c.meth(o, "liquidity_approx", p1, p3, asperc=True)
    c.ensure("in [0,1]", c.And(a >= 0, a <= 1, t >= 0, t <= 1))
    c.ensure("additive", c.eq(a + b, t, scale=1, tol=1e-9))
    r = c.meth(o, "liquidity_approx", p2, p1, asperc=True)
    c.ensure("order of the bounds is irrelevant", c.eq(r, a))
    mn, mx = c.attr(o, "pmin"), c.attr(o, "pmax")
    w = c.meth(o, "liquidity_approx", mn, mx, asperc=True)
    c.ensure("whole range is everything", c.eq(w, 1))
    tk = c.attr(o, "tkn")
    l = c.meth(o, "liquidity_approx", p1, p2, tkn=tk)
    c.ensure("amount in the curve's own token", c.eq(l, a * y))


# ------------------------------------------------------------------------------------------------ C03
EPS = 1e-10


def amounts_outside_dust(c, dy):
    c.assume(c.Or(c.eq(dy, 0), dy > c.rational(1, 10 ** 9), dy < c.rational(-1, 10 ** 9)))


@contract("C03", functions=[U + "selly", U + "dxfromdy_f", U + "addliqy", U + "p_marg_f"], samples=800, budget=90, weight=2)
def selly_accounting(c):
    """a sale of dy moves exactly dy off the curve and exactly dx = curve price onto the linked curve, records what it did, nothing else changes"""
    o, B, S, yint, y = curve(c)
    f = c.real("f", lo=0, hi=1)
    dy = y * f
    amounts_outside_dust(c, dy)
    native = side(c, o)
    link = c.bool("linked")
    ex = c.bool("execute")
    o2 = None
    if link:
        o2, B2, S2, yint2, y2 = curve(c, pre="l_", tkn="USDC" if c.is_str_eq(c.attr(o, "tkn"), "ETH") else "ETH")
        c.meth(o, "set_linked", o2)
    t = S * y + B * yint
    s0 = c.snapshot(o, o2)
    r = c.meth(o, "selly", dy, execute=ex)
    c.ensure("a result", r is not None)
    if r is None:
        return
    dx = c.item(r, "dx")
    c.ensure("received amount on the curve", c.eq(dx * t * (t - S * dy), dy * yint * yint))
    c.ensure("reported amounts", c.And(c.eq(c.item(r, "dy"), dy), c.eq(c.item(r, "y_old"), y), c.eq(c.item(r, "y"), y - dy, scale=yint, tol=1e-9),
                                       c.eq(c.item(r, "y_int"), yint), c.Not(c.item(r, "expanded"))))
    c.ensure("executed flag", c.pyeq(c.item(r, "executed"), c.And(ex, c.Not(c.eq(dy, 0))) if c.symbolic else (ex and dy != 0)))
    p = c.item(r, "p")
    c.ensure("reported price", c.Implies(c.Not(c.eq(dy, 0)), p is not None and (c.eq(p * dx, dy, tol=1e-5) if native else c.eq(p * dy, dx, tol=1e-5))))
    pm = c.item(r, "pmarg")
    q = (B * yint + S * (y - dy)) * (B * yint + S * (y - dy))
    c.ensure("reported marginal price", c.eq(pm * yint * yint, q) if native else c.eq(pm * q, yint * yint))
    if ex:
        c.ensure("liquidity reduced by dy", c.eq(c.attr(o, "y"), y - dy, scale=yint, tol=1e-9))
        c.ensure("liquidity not negative", c.attr(o, "y") >= 0)
        if link:
            c.ensure("linked curve receives dx", c.eq(c.attr(o2, "y"), y2 + dx))
            c.ensure("linked capacity grows only when needed", c.eq(c.attr(o2, "yint"), c.If(y2 + dx > yint2, y2 + dx, yint2)))
        c.ensure("nothing else changes", c.unchanged(s0, c.snapshot(o, o2), ignore=("$0.y", "$0.linked.y", "$0.linked.yint")))
        c.ensure("capacity kept", c.eq(c.attr(o, "yint"), yint))
    else:
        c.ensure("a quote changes nothing", c.unchanged(s0, c.snapshot(o, o2)))


@contract("C03", functions=[U + "selly"], samples=600, budget=60)
def selly_refusals(c):
    """a trade that cannot be done changes nothing: more than the liquidity, buying back when not allowed, beyond capacity without expansion"""
    o, B, S, yint, y = curve(c)
    o2, B2, S2, yint2, y2 = curve(c, pre="l_", tkn="USDC" if c.is_str_eq(c.attr(o, "tkn"), "ETH") else "ETH")
    if c.bool("linked"):
        c.meth(o, "set_linked", o2)
    e = c.real("e", gt=0, rng=(1e-3, 1e3))
    c.assume(e > c.rational(1, 10 ** 6))
    if not c.symbolic:
        c.assume(e > 1e-9 * yint)
    how = c.choice("how", ["too much", "negative", "expand"])
    r = c.bool("raiseonerror")
    if how == "too much":
        args = (y + e, True, c.bool("allowneg"), c.bool("expandcurve"), r)
    elif how == "negative":
        args = (-e, True, False, c.bool("expandcurve"), r)
    else:
        args = (y - yint - e, True, True, False, r)
    # the marginal price reported with the refusal must exist: B yint + S (y - dy) > 0
    s0 = c.snapshot(o, o2)
    if how == "too much":
        c.assume(c.Not(c.eq(B * yint - S * e, 0)))
    out = c.try_meth(o, "selly", *args)
    if r:
        c.ensure("refused with ValueError", out.raised("ValueError"))
    else:
        c.ensure("refused with None", out.ok and out.value is None)
    c.ensure("nothing changed", c.unchanged(s0, c.snapshot(o, o2)))


@contract("C03", functions=[U + "selly", U + "dxfromdy_f"], samples=600, budget=60)
def selly_buyback(c):
    """negative dy buys the token back at the curve price, expanding the capacity exactly when allowed and needed"""
    o, B, S, yint, y = curve(c)
    e = c.real("e", gt=0, rng=(1e-3, 1e5))
    c.assume(e > c.rational(1, 10 ** 6))
    exp = c.bool("expandcurve")
    if not exp:
        c.assume(y + e <= yint)
    elif not c.symbolic:
        c.assume(abs(y + e - yint) > 1e-9 * yint)
    t = S * y + B * yint
    r = c.try_meth(o, "selly", -e, expandcurve=exp)
    c.ensure("no crash", r.ok)
    if not r.ok:
        return
    r = r.value
    c.ensure("executed", r is not None and c.item(r, "executed"))
    if r is None:
        return
    dx = c.item(r, "dx")
    c.ensure("paid amount on the old curve", c.eq(dx * t * (t + S * e), -e * yint * yint) if not exp else c.Or(y + e > yint, c.eq(dx * t * (t + S * e), -e * yint * yint)))
    c.ensure("curve gives the other token", dx < 0)
    c.ensure("liquidity grows by e", c.eq(c.attr(o, "y"), y + e))
    c.ensure("capacity", c.eq(c.attr(o, "yint"), c.If(y + e > yint, y + e, yint)))
    c.ensure("reported", c.And(c.eq(c.item(r, "y"), y + e), c.eq(c.item(r, "dy"), -e), c.pyeq(c.item(r, "expanded"), y + e > yint)))


@contract("C03", functions=[U + "selly"], samples=400, budget=60)
def linked_buyback_atomic(c):
    """buying back on a curve whose linked curve cannot pay is refused without changing either curve"""
    o, B, S, yint, y = curve(c)
    o2, B2, S2, yint2, y2 = curve(c, pre="l_", tkn="USDC" if c.is_str_eq(c.attr(o, "tkn"), "ETH") else "ETH")
    c.meth(o, "set_linked", o2)
    e = c.real("e", gt=0, rng=(1e-3, 1e5))
    c.assume(e > c.rational(1, 10 ** 6))
    c.assume(y + e <= yint)
    s0 = c.snapshot(o, o2)
    out = c.try_meth(o, "selly", -e)
    if out.ok:
        c.ensure("both legs move together", c.And(c.eq(c.attr(o, "y"), y + e), c.eq(c.attr(o2, "y"), y2 + c.item(out.value, "dx"))))
    else:
        c.ensure("refused with ValueError", out.raised("ValueError"))
        c.ensure("nothing changed", c.unchanged(s0, c.snapshot(o, o2)))


@contract("C03", functions=[U + "selly"], samples=300, budget=60)
def dust_trades_ignored(c):
    """amounts below the dust limit are treated as zero and never executed"""
    o, B, S, yint, y = curve(c)
    k = c.real("k", gt=-1, lt=1, rng=(-0.9, 0.9), log=False)
    dy = k * c.rational(1, 10 ** 10)
    c.assume(c.And(y >= c.rational(1, 10 ** 6)))
    s0 = c.snapshot(o)
    r = c.meth(o, "selly", dy)
    c.ensure("a result", r is not None)
    if r is None:
        return
    c.ensure("not executed", c.Not(c.item(r, "executed")))
    c.ensure("zero amounts", c.And(c.eq(c.item(r, "dy"), 0), c.eq(c.item(r, "dx"), 0)))
    c.ensure("nothing changed", c.unchanged(s0, c.snapshot(o)))


@contract("C03", functions=[U + "buyx", U + "selly", U + "dyfromdx_f"], samples=600, budget=90)
def buyx_accounting(c):
    """buying x by amount is the same trade as selling the matching y: exactly dx received, dy given up, linked curve credited"""
    o, B, S, yint, y = curve(c)
    f = c.real("f", lo=0, hi=1)
    full = c.div(yint, B * (B + S)) - X(c, y, B, S, yint)
    dx = full * f
    link = c.bool("linked")
    ex = c.bool("execute")
    o2 = None
    if link:
        o2, B2, S2, yint2, y2 = curve(c, pre="l_", tkn="USDC" if c.is_str_eq(c.attr(o, "tkn"), "ETH") else "ETH")
        c.meth(o, "set_linked", o2)
    t = S * y + B * yint
    s0 = c.snapshot(o, o2)
    out = c.try_meth(o, "buyx", dx, execute=ex)
    c.ensure("no crash", out.ok)
    if not out.ok:
        return
    r = out.value
    c.ensure("a result", r is not None)
    if r is None:
        return
    dy = c.item(r, "dy")
    if c.split(c.eq(dy, 0)):
        if not (c.symbolic):
            return
        c.ensure("only dust is ignored", c.eq(dx * t * t, 0) if False else dx * t * t <= c.rational(1, 10 ** 10) * (S * dx * t + yint * yint))
        return
    c.ensure("amount given up is the curve amount", c.eq(dy * (S * dx * t + yint * yint), dx * t * t))
    c.ensure("received what was asked", c.eq(c.item(r, "dx"), dx, tol=1e-6))
    if ex:
        c.ensure("liquidity reduced", c.eq(c.attr(o, "y"), y - dy, scale=yint, tol=1e-9))
        if link:
            c.ensure("linked curve receives", c.eq(c.attr(o2, "y"), y2 + c.item(r, "dx")))
    else:
        c.ensure("a quote changes nothing", c.unchanged(s0, c.snapshot(o, o2)))


@contract("C03", functions=[U + "tradeto", U + "selly", U + "dyfromp_f", U + "yfromp_f"], samples=600, budget=120, weight=2)
def tradeto_reaches_price(c):
    """trading to a price leaves the curve at that price, fully sold if the price is beyond the end, untouched if it is beyond the current price"""
    o, B, S, yint, y = curve(c, smin=1)
    native = side(c, o)
    k = c.real("k", gt=0, rng=(1e-3, 1e3))
    p = k * k if native else c.div(1, k * k)
    ex = c.bool("execute")
    m = B + c.div(S * y, yint)
    if not c.symbolic:
        c.assume(abs(k - m) > 1e-6 * m and abs(k - B) > 1e-6 * B)
    c.assume(yint >= c.rational(1, 10))
    s0 = c.snapshot(o)
    out = c.try_meth(o, "tradeto", p, execute=ex)
    c.ensure("no crash", out.ok)
    if not out.ok:
        return
    r = out.value
    dy = c.item(r, "dy")
    if not ex:
        c.ensure("a quote changes nothing", c.unchanged(s0, c.snapshot(o)))
    want = c.If(k < B, y, c.If(k > m, 0, y - c.div((k - B) * yint, S)))
    c.ensure("amount sold", c.Or(c.eq(dy, want, scale=yint, tol=1e-6), c.And(c.eq(dy, 0), want <= c.rational(1, 10 ** 10))))
    if ex:
        c.ensure("liquidity", c.eq(c.attr(o, "y"), y - dy, scale=yint, tol=1e-9))
        c.ensure("capacity kept", c.eq(c.attr(o, "yint"), yint))


@contract("C03", functions=[U + "tradeto"], samples=300, budget=60)
def tradeto_constant_price(c):
    """a constant-price curve (equal start and end price) sells everything beyond its price and nothing before it"""
    tkn = c.choice("tkn", ["ETH", "USDC"])
    B = c.real("B", gt=0, rng=(1e-2, 1e2))
    yint = c.real("yint", gt=0, rng=(1, 1e5))
    y = yint * c.real("f", lo=0, hi=1)
    o = c.call(M + "CarbonOrderUI", "ETH/USDC", tkn, B, 0, yint, y)
    k = c.real("k", gt=0, rng=(1e-3, 1e3))
    if not c.symbolic:
        c.assume(abs(k - B) > 1e-6 * B)
    p = k * k if tkn == "USDC" else c.div(1, k * k)
    out = c.try_meth(o, "tradeto", p)
    c.ensure("no crash", out.ok)
    if not out.ok:
        return
    dust = c.rational(1, 10 ** 10)
    c.ensure("all or nothing", c.Or(c.eq(c.attr(o, "y"), c.If(k < B, 0, y), scale=yint, tol=1e-9), y <= dust))


@contract("C03", functions=[U + "tradeto", U + "addliqy", U + "selly"], samples=200, budget=60)
def tradeto_on_empty_curve(c):
    """a curve that never had capacity survives trading to any price and stays empty; adding liquidity brings it to its start price"""
    tkn = c.choice("tkn", ["ETH", "USDC"])
    B = c.real("B", gt=0, rng=(1e-2, 1e2))
    S = c.real("S", gt=0, rng=(1e-2, 1e2))
    o = c.call(M + "CarbonOrderUI", "ETH/USDC", tkn, B, S, 0, 0)
    k = c.real("k", gt=0, rng=(1e-3, 1e3))
    p = k * k if tkn == "USDC" else c.div(1, k * k)
    s0 = c.snapshot(o)
    out = c.try_meth(o, "tradeto", p, execute=c.bool("execute"))
    c.ensure("no crash", out.ok)
    c.ensure("nothing changed", c.unchanged(s0, c.snapshot(o)))
    e = c.real("e", gt=0, rng=(1e-3, 1e3))
    c.meth(o, "addliqy", e)
    c.ensure("liquidity and capacity", c.And(c.eq(c.attr(o, "y"), e), c.eq(c.attr(o, "yint"), e)))
    c.ensure("price is the start price", c.eq(c.attr(o, "p_marg"), c.attr(o, "pa")))


@contract("C03", functions=[U + "addliqy"], samples=400, budget=40)
def addliqy_accounting(c):
    """adding liquidity adds exactly that, grows the capacity only as far as needed, refuses negative amounts and forbidden growth untouched"""
    o, B, S, yint, y = curve(c)
    d = c.real("d", rng=(-100, 1e5))
    exp = c.bool("expandcurve")
    s0 = c.snapshot(o)
    out = c.try_meth(o, "addliqy", d, exp)
    if c.split(d < 0) or (not exp and c.split(y + d > yint)):
        c.ensure("refused with ValueError", out.raised("ValueError"))
        c.ensure("nothing changed", c.unchanged(s0, c.snapshot(o)))
        return
    c.ensure("accepted", out.ok)
    if not out.ok:
        return
    c.ensure("liquidity", c.eq(c.attr(o, "y"), y + d))
    c.ensure("capacity", c.eq(c.attr(o, "yint"), c.If(y + d > yint, y + d, yint)))
    c.ensure("nothing else", c.unchanged(s0, c.snapshot(o), ignore=("$0.y", "$0.yint")))
    r = out.value
    c.ensure("report", c.And(c.eq(c.item(r, "y_old"), y), c.eq(c.item(r, "y"), y + d), c.eq(c.item(r, "dy"), d), c.eq(c.item(r, "yint_old"), yint),
                             c.eq(c.item(r, "yint"), c.attr(o, "yint")), c.eq(c.item(r, "pmarg"), c.attr(o, "p_marg"))))


@contract("C03", functions=[U + "set_id", U + "set_linked", U + "lid"], samples=100, budget=20)
def id_and_link_set_once(c):
    """id and link can be set once; a second attempt is refused and changes nothing"""
    o, *_ = curve(c)
    p, *_ = curve(c, pre="l_")
    i, j = c.int("i", 0, rng=(0, 9)), c.int("j", 0, rng=(0, 9))
    c.meth(o, "set_id", i)
    c.meth(p, "set_id", j)
    c.ensure("no link yet", c.attr(o, "lid") is None)
    r = c.meth(o, "set_linked", p)
    c.ensure("returns the curve", c.same(r, o))
    c.ensure("linked id", c.eq(c.attr(o, "lid"), j))
    c.ensure("second id refused", c.try_meth(o, "set_id", j).raised("ValueError"))
    c.ensure("second link refused", c.try_meth(o, "set_linked", o).raised("ValueError"))
    c.ensure("id kept", c.And(c.eq(c.attr(o, "id"), i), c.same(c.attr(o, "linked"), p)))


# ------------------------------------------------------------------------------------------------ C04
@contract("C04", functions=[U + "from_prices", U + "__post_init__"], samples=600, budget=60)
def from_prices_recovers_prices(c):
    """a curve built from start and end price reports those prices (in the worse-to-better order), the given capacity, liquidity and id"""
    a = c.real("a", gt=0, rng=(1e-3, 1e3))
    b = c.real("b", gt=0, rng=(1e-3, 1e3))
    tkn = c.choice("tkn", ["ETH", "USDC"])
    yint = c.real("yint", gt=0, rng=(1, 1e5))
    y = yint * c.real("f", lo=0, hi=1)
    i = c.int("id", 0, rng=(0, 100))
    o = c.call(U + "from_prices", "ETH/USDC", tkn, pa=a, pb=b, yint=yint, y=y, id=i)
    pa, pb = c.attr(o, "pa"), c.attr(o, "pb")
    first = c.Or(a >= b, False) if tkn == "USDC" else c.Or(a <= b, False)
    c.ensure("start price", c.eq(pa, c.If(first, a, b)))
    c.ensure("end price", c.eq(pb, c.If(first, b, a)))
    c.ensure("bounds", c.And(c.eq(c.attr(o, "pmin"), c.If(a <= b, a, b)), c.eq(c.attr(o, "pmax"), c.If(a <= b, b, a))))
    c.ensure("capacity, liquidity, id", c.And(c.eq(c.attr(o, "yint"), yint), c.eq(c.attr(o, "y"), y), c.eq(c.attr(o, "id"), i)))
    c.ensure("parameters", c.And(c.attr(o, "B") > 0, c.attr(o, "S") >= 0))
    c.ensure("token and direction", c.And(c.is_str_eq(c.attr(o, "tkn"), tkn), c.pyeq(c.attr(o, "reverseq"), tkn == "ETH")))


@contract("C04", functions=[U + "from_prices", U + "from_Qxy", U + "__post_init__"], samples=300, budget=40)
def invalid_curves_refused(c):
    """negative or over-full liquidity, bad convexity inputs and foreign tokens are refused with ValueError"""
    how = c.choice("how", ["yint<0", "y>yint", "y<0", "token", "Q xint", "Q yint", "Q y>yint", "Q y<0", "Q token", "raw token"])
    p = c.real("p", gt=0, rng=(1e-3, 1e3))
    e = c.real("e", gt=0, rng=(1e-3, 1e3))
    tkn = c.choice("tkn", ["ETH", "USDC"])
    base = dict(pair="ETH/USDC", tkn=tkn, pa=p, pb=p + e, yint=e, y=e)
    q = dict(pair="ETH/USDC", tkn=tkn, Q=0.5, xint=e, yint=e, y=e)
    if how == "yint<0":
        base["yint"], base["y"] = -e, -e
    elif how == "y>yint":
        base["y"] = e + e
    elif how == "y<0":
        base["y"] = -e
    elif how == "token":
        base["tkn"] = "BNT"
    elif how == "Q xint":
        q["xint"] = -e
    elif how == "Q yint":
        q["yint"] = 0
    elif how == "Q y>yint":
        q["y"] = e + e
    elif how == "Q y<0":
        q["y"] = -e
    elif how == "Q token":
        q["tkn"] = "BNT"
    if how == "raw token":
        out = c.try_(M + "CarbonOrderUI", "ETH/USDC", "BNT", p, e, e, e)
    elif how.startswith("Q"):
        out = c.try_(U + "from_Qxy", **q)
    else:
        out = c.try_(U + "from_prices", **base)
    c.ensure("refused with ValueError", out.raised("ValueError"))


@contract("C04", functions=[U + "from_Qxy", U + "Q", U + "xint"], samples=400, budget=60)
def from_Qxy_recovers(c):
    """a curve built from convexity and intercepts reports them back"""
    k = c.real("k", gt=0, lt=1, rng=(0.1, 0.99))
    Q = k * k
    xint = c.real("xint", gt=0, rng=(1e-2, 1e4))
    yint = c.real("yint", gt=0, rng=(1e-2, 1e4))
    y = yint * c.real("f", lo=0, hi=1)
    tkn = c.choice("tkn", ["ETH", "USDC"])
    o = c.call(U + "from_Qxy", "ETH/USDC", tkn, Q, xint, yint, y)
    c.ensure("x intercept", c.eq(c.attr(o, "xint"), xint))
    c.ensure("y intercept and liquidity", c.And(c.eq(c.attr(o, "yint"), yint), c.eq(c.attr(o, "y"), y)))
    B, S = c.attr(o, "B"), c.attr(o, "S")
    c.ensure("convexity", c.eq(B, Q * (B + S)))
    c.ensure("orientation", c.And(B > 0, S > 0))


@contract("C04", functions=[U + "from_BSy", U + "from_order"], samples=300, budget=40)
def parameter_constructors_agree(c):
    """from_BSy and from_order reproduce the given curve parameters"""
    o, B, S, yint, y = curve(c)
    c.meth(o, "set_id", 7)
    p = c.call(U + "from_order", o)
    q = c.call(U + "from_BSy", "ETH/USDC", c.attr(o, "tkn"), B, S, yint, y)
    for n, z in (("from_order", p), ("from_BSy", q)):
        c.ensure(n, c.And(*[c.eq(c.attr(z, k), c.attr(o, k)) for k in ("B", "S", "yint", "y", "pa", "pb", "pmin", "pmax")]))
        c.ensure(n + " token", c.is_str_eq(c.attr(z, "tkn"), c.attr(o, "tkn")))
    c.ensure("id copied", c.eq(c.attr(p, "id"), 7))
    c.ensure("pair", c.is_str_eq(c.attr(c.attr(p, "pair"), "slashpair"), "ETH/USDC"))


@contract("C04", functions=[U + "_from_SDK0", U + "bn2intd", U + "bn2int"], samples=300, budget=40)
def from_SDK0_scales(c):
    """an encoded order from the SDK becomes the curve with the decoded parameters"""
    A = c.int("A", 1, rng=(1, 2 ** 60))
    B = c.int("B", 1, rng=(1, 2 ** 60))
    z = c.int("z", 1, rng=(1, 2 ** 80))
    y = c.int("y", 0, rng=(0, 2 ** 80))
    c.assume(y <= z)
    d = c.choice("dec", [0, 6, 18])
    enc = {"A": A, "B": B, "y": y, "z": z}
    if c.bool("wrapped"):
        enc = {"encoded": enc}
    out = c.try_(U + "_from_SDK0", c.lift(enc), "ETH/USDC", c.choice("tkn", ["ETH", "USDC"]), d)
    c.ensure("no crash", out.ok)
    if not out.ok:
        return
    o = out.value
    c.ensure("parameters", c.And(c.eq(c.attr(o, "S") * 2 ** 48, A), c.eq(c.attr(o, "B") * 2 ** 48, B)))
    c.ensure("amounts", c.And(c.eq(c.attr(o, "y") * 10 ** d, y), c.eq(c.attr(o, "yint") * 10 ** d, z)))


@contract("C04", functions=[U + "from_SDK", U + "from_prices", U + "set_linked"], samples=300, budget=60)
def from_SDK_pairs_orders(c):
    """a strategy dict becomes a linked buy and sell curve with the given budgets and prices"""
    bl = c.real("bl", gt=0, rng=(1e-3, 1e3))
    bh = bl * c.real("r1", lo=1, rng=(1, 10))
    sl = bh * c.real("r2", lo=1, rng=(1, 10))
    sh = sl * c.real("r3", lo=1, rng=(1, 10))
    bb = c.real("bb", gt=0, rng=(1, 1e5))
    sb = c.real("sb", gt=0, rng=(1, 1e5))
    y0, z0 = c.int("y0", 0, rng=(0, 10 ** 6)), c.int("z0", 1, rng=(1, 10 ** 6))
    y1, z1 = c.int("y1", 0, rng=(0, 10 ** 6)), c.int("z1", 1, rng=(1, 10 ** 6))
    c.assume(c.And(y0 <= z0, y1 <= z1))
    swap = c.bool("swap")
    b, q = "0xBASE", "0xQUOTE"
    enc = {"token0": q if swap else b, "token1": b if swap else q, "order0": {"y": y0, "z": z0}, "order1": {"y": y1, "z": z1}}
    s = {"id": 5, "baseToken": b, "quoteToken": q, "buyPriceLow": bl, "buyPriceHigh": bh, "buyBudget": bb, "sellPriceLow": sl,
         "sellPriceHigh": sh, "sellBudget": sb, "encoded": enc}
    out = c.try_(U + "from_SDK", c.lift(s))
    c.ensure("no crash", out.ok)
    if not out.ok:
        return
    buy, sell = c.items(out.value)
    c.ensure("linked to each other", c.And(c.same(c.attr(buy, "linked"), sell), c.same(c.attr(sell, "linked"), buy)))
    c.ensure("tokens", c.And(c.is_str_eq(c.attr(buy, "tkn"), "TKNQ"), c.is_str_eq(c.attr(sell, "tkn"), "TKNB")))
    c.ensure("buy prices", c.And(c.eq(c.attr(buy, "pa"), bh), c.eq(c.attr(buy, "pb"), bl)))
    c.ensure("sell prices", c.And(c.eq(c.attr(sell, "pa"), sl), c.eq(c.attr(sell, "pb"), sh)))
    c.ensure("capacities", c.And(c.eq(c.attr(buy, "yint"), bb), c.eq(c.attr(sell, "yint"), sb)))
    yb, zb, yq, zq = (y1, z1, y0, z0) if swap else (y0, z0, y1, z1)
    c.ensure("liquidity", c.And(c.eq(c.attr(sell, "y") * zb, sb * yb), c.eq(c.attr(buy, "y") * zq, bb * yq)))


@contract("C04", functions=[U + "as_cpc", "carbon.tools.cpc:ConstantProductCurve.from_pkpp"], samples=400, budget=120, weight=2)
def as_cpc_equivalent(c):
    """the equivalent constant-product curve has the same marginal price and price bounds"""
    q = c.real("q", gt=0, lt=1, rng=(0.5, 0.99))
    pa = c.real("sa", gt=0, rng=(1e-1, 1e1))
    B = q * q * pa
    S = pa - B
    yint = c.real("yint", gt=0, rng=(1, 1e5))
    y = yint * c.real("y_frac", gt=0, lt=1, rng=(0.05, 0.95))
    tkn = c.choice("tkn", ["ETH", "USDC"])
    o = c.call(M + "CarbonOrderUI", "ETH/USDC", tkn, B, S, yint, y)
    k = c.attr(o, "as_cpc")
    c.ensure("price", c.eq(c.attr(k, "p"), c.attr(o, "p_marg")))
    c.ensure("pool constant", c.eq(c.attr(k, "k"), c.attr(o, "kappa"), tol=1e-5))


@contract("C04", functions=[U + "yzABS", "carbon.carbon_order_ui:yzABSdata.asdict"], samples=300, budget=60)
def yzABS_scales(c):
    """the contract encoding scales amounts by the token decimals and A, B by the requested power of two, rounding down"""
    B = c.real("B", gt=0, rng=(1e-2, 1e2))
    S = c.real("S", lo=0, rng=(1e-3, 1e2))
    yint = c.real("yint", gt=0, rng=(1, 1e5))
    y = yint * c.real("f", lo=0, hi=1)
    sx = c.choice("sx", [0, 24, 48])
    de, du = c.choice("d1", [18, 6, 9]), c.choice("d2", [6, 18])
    tkn = c.choice("tkn", ["ETH", "USDC"])
    pair = c.call("carbon.pair:CarbonPair", tknb="ETH", tknq="USDC")
    c.meth(pair, "set_decimals", de, du)
    o = c.call(M + "CarbonOrderUI", pair, tkn, B, S, yint, y)
    r = c.meth(o, "yzABS", sx)
    decy, decx = (de, du) if tkn == "ETH" else (du, de)
    f = c.div(c.pow10(decy - decx) if decy >= decx else 1, 1 if decy >= decx else c.pow10(decx - decy))
    c.ensure("amounts", c.And(c.eq(c.attr(r, "y"), y * c.pow10(decy)), c.eq(c.attr(r, "z"), yint * c.pow10(decy))))
    c.ensure("scale", c.eq(c.attr(r, "S"), 2 ** sx))
    A1, B1 = c.attr(r, "A"), c.attr(r, "B")
    c.ensure("ints", c.And(c.isint(A1), c.isint(B1)))
    wa, wb = S * S * f * 4 ** sx, B * B * f * 4 ** sx
    c.ensure("A is the floor", c.And(c.le(A1 * A1, wa), c.gt((A1 + 1) * (A1 + 1), wa)))
    c.ensure("B is the floor", c.And(c.le(B1 * B1, wb), c.gt((B1 + 1) * (B1 + 1), wb)))
    c.ensure("views", c.And(c.eq(c.attr(r, "A_unscaled") * 2 ** sx, A1), c.eq(c.attr(r, "B_unscaled") * 2 ** sx, B1), c.eq(c.attr(r, "A_scaled"), A1),
                            c.eq(c.attr(r, "B_scaled"), B1), c.eq(c.attr(r, "scaling_factor"), 2 ** sx)))
    t = c.attr(r, "astuple")
    c.ensure("tuple", c.And(*[c.eq(c.item(t, i), c.attr(r, n)) for i, n in enumerate("yzABS")]))
    d = c.attr(r, "asdict")
    c.ensure("dict", c.And(*[c.eq(c.item(d, n), c.attr(r, n)) for n in "yzABS"]))


@contract("C04", functions=[U + "curves_by_pair_bidask"], samples=100, budget=40)
def curves_sorted_into_sides(c):
    """every curve appears once under its pair and once on exactly one side"""
    cs = {}
    n = c.choice("n", [1, 2, 3])
    for i in range(n):
        p = c.choice(f"p{i}", ["ETH/USDC", "LINK/USDC"])
        s = c.choice(f"s{i}", [0, 1])
        cs[i] = c.call(M + "CarbonOrderUI", p, p.split("/")[s], 1.0, 0.5, 10.0, 5.0)
    r = c.call(U + "curves_by_pair_bidask", c.lift(cs))
    for i in range(n):
        cnt = {"ALL": 0, "BID": 0, "ASK": 0}
        own = {"ALL": 0, "BID": 0, "ASK": 0}
        for pair, d in c.dict_items(r):
            for k in cnt:
                hits = sum(1 for z in c.items(c.item(d, k)) if c.same(z, cs[i]))
                cnt[k] += hits
                if pair == c.attr(c.attr(cs[i], "pair"), "slashpair"):
                    own[k] += hits
        c.ensure("once under its pair", cnt["ALL"] == 1 and own["ALL"] == 1)
        sells_base = c.attr(cs[i], "tkn") == c.attr(c.attr(cs[i], "pair"), "basetoken")
        c.ensure("on the right side", cnt["ASK"] == (1 if sells_base else 0) and cnt["BID"] == (0 if sells_base else 1))
