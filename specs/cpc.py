"""Contracts for the levered constant-product curves and their container (carbon/tools/cpc.py) : K01..K04."""
from pyvc.api import contract

K = "carbon.tools.cpc:"
CPC = K + "ConstantProductCurve"
P = CPC + "."
ATTRS = ("k", "x", "x_act", "y_act")


def anycurve(c, pre="", lev=None, pair="ETH/USDC", cid="c0", **kw):
    """any levered curve: k, x > 0, 0 <= x_act <= x and 0 <= y_act <= y; `lev` restricts which balances reach the virtual ones"""
    x = c.real(pre + "x", gt=0, rng=(1e-2, 1e3))
    y = c.real(pre + "y", gt=0, rng=(1e-2, 1e3))
    lev = lev or c.choice(pre + "lev", ["both", "xfull", "yfull", "full", "xempty", "yempty"])
    fx = 1 if lev in ("xfull", "full") else 0 if lev == "xempty" else c.real(pre + "fx", lo=0, lt=1, rng=(0.01, 0.99))
    fy = 1 if lev in ("yfull", "full") else 0 if lev == "yempty" else c.real(pre + "fy", lo=0, lt=1, rng=(0.01, 0.99))
    # a full balance is left to its default so that it is the virtual one exactly, in floating point too
    o = c.call(CPC, k=x * y, x=x, x_act=None if full(fx) else x * fx, y_act=None if full(fy) else y * fy, pair=pair, cid=cid, fee=0, descr="d", **kw)
    return o, x, y, fx, fy


def full(f):
    return type(f) is int and f == 1


def mirrored(c, x, y, fx, fy, pair, cid="c0"):
    """the curve built the other way round"""
    return c.call(CPC, k=x * y, x=y, x_act=None if full(fy) else y * fy, y_act=None if full(fx) else x * fx, pair=pair, cid=cid)


def shape(c, o, nm=""):
    """the facts every curve satisfies, in terms of its own attributes"""
    k, x, xa, ya = (c.attr(o, a) for a in ATTRS)
    y, p = c.attr(o, "y"), c.attr(o, "p")
    c.ensure(nm + "x y = k", c.eq(x * y, k))
    c.ensure(nm + "p = y / x", c.eq(p * x, y))
    c.ensure(nm + "kbar^2 = k", c.eq(c.attr(o, "kbar") * c.attr(o, "kbar"), k))
    xmin, ymin = c.attr(o, "x_min"), c.attr(o, "y_min")
    c.ensure(nm + "x_min = x - x_act", c.eq(xmin, x - xa, scale=x, tol=1e-9))
    c.ensure(nm + "y_min = y - y_act", c.eq(ymin, y - ya, scale=y, tol=1e-9))


# ------------------------------------------------------------------------------------------------ K01
@contract("K01", functions=[P + m for m in ("y", "p", "kbar", "x_min", "y_min", "x_max", "y_max", "p_min", "p_max")], samples=600, weight=2, split=10)
def range_of_a_curve(c):
    """p = y/x, xy = k; the range bounds are where one actual balance reaches zero, and None exactly if that is never"""
    o, x, y, fx, fy = anycurve(c)
    shape(c, o)
    xmin, ymin, xmax, ymax = (c.attr(o, a) for a in ("x_min", "y_min", "x_max", "y_max"))
    pmin, pmax, p, k = (c.attr(o, a) for a in ("p_min", "p_max", "p", "k"))
    c.ensure("no x limit iff all y is actual", (xmax is None) == (type(fy) is int and fy == 1) or not c.symbolic)
    c.ensure("no y limit iff all x is actual", (ymax is None) == (type(fx) is int and fx == 1) or not c.symbolic)
    c.ensure("p_min iff x_max", (pmin is None) == (xmax is None))
    c.ensure("p_max iff y_max", (pmax is None) == (ymax is None))
    if xmax is not None:
        c.ensure("(x_max, y_min) on the curve", c.eq(xmax * ymin, k))
        c.ensure("p_min = y_min / x_max", c.eq(pmin * xmax, ymin))
        c.ensure("p_min^ x_max^2 = k", c.eq(pmin * xmax * xmax, k))
        c.ensure("x <= x_max", c.le(x, xmax, tol=1e-9))
        c.ensure("p_min <= p", c.le(pmin, p, tol=1e-9))
    if ymax is not None:
        c.ensure("(x_min, y_max) on the curve", c.eq(ymax * xmin, k))
        c.ensure("p_max = y_max / x_min", c.eq(pmax * xmin, ymax))
        c.ensure("y <= y_max", c.le(y, ymax, tol=1e-9))
        c.ensure("p <= p_max", c.le(p, pmax, tol=1e-9))


@contract("K01", functions=[P + m for m in ("from_kx", "from_ky", "from_xy", "from_pk", "from_px", "from_py")], samples=600)
def elementary_constructors(c):
    """two of k, x, y, p determine the curve, whichever two are given; actual balances default to the virtual ones"""
    x = c.real("x", gt=0, rng=(1e-2, 1e3))
    y = c.real("y", gt=0, rng=(1e-2, 1e3))
    how = c.choice("how", ["kx", "ky", "xy", "pk", "px", "py"])
    act = c.choice("act", ["none", "both", "x", "y"])
    xa = c.real("xa", lo=0, rng=(0, 1)) * x if act in ("both", "x") else None
    ya = c.real("ya", lo=0, rng=(0, 1)) * y if act in ("both", "y") else None
    val = {"k": x * y, "x": x, "y": y, "p": c.div(y, x)}
    o = c.call(P + "from_" + how, **{a: val[a] for a in how}, x_act=xa, y_act=ya, pair="ETH/USDC", cid="id7", fee=c.rational(1, 100), descr="text")
    for a in ("k", "x", "y", "p"):
        c.ensure(f"{a}", c.eq(c.attr(o, a), val[a], tol=1e-9))
    c.ensure("x_act", c.eq(c.attr(o, "x_act"), x if xa is None else xa, scale=x, tol=1e-9))
    c.ensure("y_act", c.eq(c.attr(o, "y_act"), y if ya is None else ya, scale=y, tol=1e-9))
    c.ensure("labels", c.attr(o, "pair") == "ETH/USDC" and c.attr(o, "cid") == "id7" and c.attr(o, "descr") == "text" and c.attr(o, "constr") == how)
    c.ensure("fee", c.eq(c.attr(o, "fee"), c.rational(1, 100)))
    c.ensure("tokens", c.attr(o, "tknx") == c.attr(o, "tknb") == "ETH" and c.attr(o, "tkny") == c.attr(o, "tknq") == "USDC")


@contract("K01", functions=[P + "from_univ2"], samples=500)
def univ2_pool(c):
    """a Uniswap v2 pool is the unlevered curve of its reserves, whichever two of k, x, y are given; other calls are refused"""
    x = c.real("x", gt=0, rng=(1e-2, 1e3))
    y = c.real("y", gt=0, rng=(1e-2, 1e3))
    kw = dict(x_tknb=x, y_tknq=y, k=x * y)
    drop = c.choice("drop", ["x_tknb", "y_tknq", "k", None])
    if drop:
        kw.pop(drop)
    r = c.try_(P + "from_univ2", pair="ETH/USDC", cid="1", fee=0, descr="uv2", **kw)
    if drop is None:
        c.ensure("three are refused", r.raised("AssertionError"))
        return
    c.ensure("accepted", r.ok)
    if not r.ok:
        return
    o = r.value
    c.ensure("k", c.eq(c.attr(o, "k"), x * y, tol=1e-9))
    c.ensure("x", c.eq(c.attr(o, "x"), x, tol=1e-9))
    c.ensure("y", c.eq(c.attr(o, "y"), y, tol=1e-9))
    c.ensure("all x actual", c.eq(c.attr(o, "x_act"), x, tol=1e-9))
    c.ensure("all y actual", c.eq(c.attr(o, "y_act"), y, tol=1e-9))
    miss = c.choice("miss", ["pair", "cid", "descr", "fee"])
    r = c.try_(P + "from_univ2", **{**dict(pair="ETH/USDC", cid="1", fee=0, descr="uv2"), **kw, miss: None})
    c.ensure("missing data is refused", r.raised("AssertionError"))


@contract("K01", functions=[P + "from_pkpp", P + "from_univ3"], samples=500, weight=2)
def univ3_pool(c):
    """a Uniswap v3 position: k = L^2, price P, price range exactly (Pa, Pb); a price outside the range is refused"""
    L = c.real("L", gt=0, rng=(1, 1e3))
    a = c.real("sa", gt=0, rng=(1e-1, 10))
    s = a + c.real("d1", gt=0, rng=(1e-2, 10))
    b = s + c.real("d2", gt=0, rng=(1e-2, 10))
    how = c.choice("params", ["none", "given"])
    o = c.call(P + "from_univ3", s * s, L, a * a, b * b, "ETH/USDC", "7", 0, "uv3", params=None if how == "none" else {"q": 1})
    c.ensure("k = L^2", c.eq(c.attr(o, "k"), L * L))
    c.ensure("price", c.eq(c.attr(o, "p"), s * s))
    x, y = c.attr(o, "x"), c.attr(o, "y")
    c.ensure("x = L / sqrt P", c.eq(x * s, L))
    c.ensure("y = L sqrt P", c.eq(y, L * s))
    c.ensure("real x reserve", c.eq(c.attr(o, "x_act") * s * b, L * (b - s), scale=L * b, tol=1e-9))
    c.ensure("real y reserve", c.eq(c.attr(o, "y_act"), L * (s - a), scale=L * s, tol=1e-9))
    lo, hi = c.attr(o, "p_min"), c.attr(o, "p_max")
    c.ensure("bounded range", lo is not None and hi is not None)
    if lo is not None and hi is not None:
        c.ensure("p_min = Pa", c.eq(lo, a * a, tol=1e-6))
        c.ensure("p_max = Pb", c.eq(hi, b * b, tol=1e-6))
    c.ensure("constructor recorded", c.attr(o, "constr") == "uv3")
    prm = c.attr(o, "params")
    c.ensure("liquidity kept in the parameters", c.eq(c.item(prm, "L"), L))
    if how == "given":
        c.ensure("parameters given are kept", c.eq(c.item(prm, "q"), 1))


@contract("K01", functions=[P + "from_univ3"], samples=300)
def univ3_range_checked(c):
    """accepted iff Pa < P < Pb"""
    pa = c.real("pa", gt=0, rng=(1, 10))
    pb = c.real("pb", gt=0, rng=(1, 10))
    p = c.real("p", gt=0, rng=(1, 10))
    r = c.try_(P + "from_univ3", p, 1, pa, pb, "ETH/USDC", "7", 0, "uv3")
    c.ensure("accepted iff inside", c.Not(c.And(pa < p, p < pb)) if not r.ok else c.And(pa < p, p < pb))
    if not r.ok:
        c.ensure("refused with an assertion", r.raised("AssertionError"))


@contract("K01", functions=[P + "from_carbon"], samples=600, weight=4, split=25)
def carbon_order(c):
    """a Carbon order (y, yint, pa, pb) sells its token only: price range exactly (pb, pa), marginal price that of the carbon curve, depth y"""
    tkny = c.choice("tkny", ["ETH", "USDC"])
    how = c.choice("how", ["dydx", "quote", "AB"])
    sb = c.real("sb", gt=0, rng=(1e-1, 10))
    A = c.real("A", gt=0, rng=(1e-2, 5))
    sa = sb + A
    y = c.real("y", lo=0, rng=(1e-1, 100))
    yint = y + c.real("room", lo=0, rng=(1e-1, 100))
    c.assume(yint > 0)
    kw = dict(yint=yint, y=y, pair="ETH/USDC", tkny=tkny, fee=0, cid="5", descr="d")
    if how == "AB":
        kw.update(A=A, B=sb)
    elif how == "dydx" or tkny == "USDC":
        kw.update(pa=sa * sa, pb=sb * sb, isdydx=how == "dydx")
    else:
        kw.update(pa=c.div(1, sa * sa), pb=c.div(1, sb * sb), isdydx=False)
    o = c.call(P + "from_carbon", **kw)
    k, x, yy = c.attr(o, "k"), c.attr(o, "x"), c.attr(o, "y")
    T = 1e-6
    c.ensure("pair in dy/dx direction", c.attr(o, "pair") == ("USDC/ETH" if tkny == "ETH" else "ETH/USDC"))
    c.ensure("sells y only", c.attr(o, "tkny") == tkny and c.eq(c.attr(o, "x_act"), 0))
    c.ensure("depth is y", c.eq(c.attr(o, "y_act"), y))
    sp = sb + A * c.div(y, yint)
    c.ensure("marginal price", c.eq(c.attr(o, "p"), sp * sp, tol=T))
    c.ensure("kappa", c.eq(k * A * A, yint * yint, tol=T))
    c.ensure("asymptote", c.eq(yy - y, c.div(yint * sb, A), scale=yy, tol=T))
    lo, hi = c.attr(o, "p_min"), c.attr(o, "p_max")
    c.ensure("bounded below", lo is not None)
    if lo is not None:
        c.ensure("p_min = pb", c.eq(lo, sb * sb, tol=T))
    c.ensure("p_max = current price", hi is not None)
    if hi is not None:
        c.ensure("nothing left to buy", c.eq(hi, sp * sp, tol=T))
    # same amounts as the carbon curve:  dx dy-pair of the order's own formula
    f = c.real("f", lo=0, hi=1, rng=(0, 1))
    dy = f * y
    dx = c.meth(o, "dxfromdy_f", -1 * dy)
    c.ensure("everything the order has can be traded", dx is not None)
    if dx is not None:
        t = A * y + sb * yint
        c.ensure("amounts of the carbon order", c.eq(dx * t * (t - A * dy), dy * yint * yint, scale=1 + dy * yint * yint, tol=1e-5))


@contract("K01", functions=[P + "from_carbon"], samples=400)
def carbon_order_refusals(c):
    """inverted ranges, over-full orders, foreign tokens and doubly specified or unspecified prices are refused"""
    bad = c.choice("bad", ["inverted", "overfull", "negative", "token", "both", "neither", "mixed1", "mixed2", "AB quote", "nopair", "notkny", "noy", "noyint"])
    pb = c.real("pb", gt=0, rng=(1, 10))
    pa = pb + c.real("w", gt=0, rng=(1e-1, 5))
    y = c.real("y", gt=0, rng=(1, 10))
    yint = y + c.real("room", lo=0, rng=(1e-1, 10))
    kw = dict(yint=yint, y=y, pair="ETH/USDC", tkny="USDC", pa=pa, pb=pb)
    if bad == "inverted":
        kw.update(pa=pb, pb=pa)
    elif bad == "overfull":
        kw.update(y=yint + c.real("over", gt=0, rng=(1, 10)))
    elif bad == "negative":
        kw.update(y=-1 * y)
    elif bad == "token":
        kw.update(tkny="WBTC")
    elif bad == "both":
        kw.update(A=1, B=1)
    elif bad == "neither":
        kw.update(pa=None, pb=None)
    elif bad == "mixed1":
        kw.update(pa=None, A=1)
    elif bad == "mixed2":
        kw.update(pb=None, B=1)
    elif bad == "AB quote":
        kw.update(pa=None, pb=None, A=1, B=1, isdydx=False)
    else:
        kw[bad[2:] if bad != "notkny" else "tkny"] = None
    r = c.try_(P + "from_carbon", **kw)
    c.ensure("refused", r.raised("AssertionError"))


@contract("K01", functions=[P + "xyfromp_f", P + "dxdyfromp_f"], samples=600, weight=3, split=20)
def point_at_a_price(c):
    """the state of the curve at marginal price p: x y = k and y = p x; beyond the range it is the end of the range"""
    o, x, y, fx, fy = anycurve(c)
    s = c.real("s", gt=0, rng=(1e-2, 1e2))
    ign = c.choice("ign", [True, False])
    px, py, pp = c.items(c.meth(o, "xyfromp_f", s * s, ignorebounds=ign))
    k = x * y
    c.ensure("price returned as given", c.eq(pp, s * s))
    c.ensure("point on the curve", c.eq(px * py, k, tol=1e-6))
    pmin, pmax = c.attr(o, "p_min"), c.attr(o, "p_max")
    below = False if ign or pmin is None else s * s < pmin
    above = False if ign or pmax is None else s * s > pmax
    c.ensure("inside: price is p", c.Implies(c.Not(c.Or(below, above)), c.eq(py, px * s * s, tol=1e-6)))
    if not ign and pmin is not None:
        c.ensure("below: all x the curve can hold", c.Implies(below, c.eq(px, c.attr(o, "x_max"), tol=1e-6)))
    if not ign and pmax is not None:
        c.ensure("above: all y the curve can hold", c.Implies(above, c.eq(py, c.attr(o, "y_max"), tol=1e-6)))
    dx, dy, pp = c.items(c.meth(o, "dxdyfromp_f", s * s, ignorebounds=ign))
    d = c.items(c.meth(o, "dxdyfromp_f", s * s, ignorebounds=ign, withunits=True))
    u = c.items(c.meth(o, "xyfromp_f", s * s, ignorebounds=ign, withunits=True))
    c.ensure("with units, same numbers", c.And(c.eq(u[0], px), c.eq(u[1], py), c.eq(u[2], s * s), c.eq(d[0], dx), c.eq(d[1], dy), c.eq(d[2], s * s)))
    c.ensure("units", u[3:] == ["ETH", "USDC", "ETH/USDC"] and d[3:] == ["ETH", "USDC", "ETH/USDC"] if c.symbolic else tuple(u[3:]) == ("ETH", "USDC", "ETH/USDC") == tuple(d[3:]))
    if ign:
        z = c.items(c.meth(o, "xyfromp_f", ignorebounds=True))
        c.ensure("at the current price by default", c.And(c.eq(z[0], x), c.eq(z[1], y), c.eq(z[2] * x, y)))
    c.ensure("dx", c.eq(dx, px - x, scale=px + x, tol=1e-9))
    c.ensure("dy", c.eq(dy, py - y, scale=py + y, tol=1e-9))
    if not ign:
        c.ensure("cannot pay out more x than it has", c.ge(dx, -1 * (x * fx), scale=x, tol=1e-9))
        c.ensure("cannot pay out more y than it has", c.ge(dy, -1 * (y * fy), scale=y, tol=1e-9))


@contract("K01", functions=[P + "tvl", P + "pp"], samples=400, weight=1)
def value_locked(c):
    """tvl in the quote token is p x_act + y_act, in the base token the same divided by p"""
    o, x, y, fx, fy = anycurve(c)
    m = c.real("m", gt=0, rng=(1e-1, 10))
    p = c.div(y, x)
    q = c.meth(o, "tvl", mult=m)
    c.ensure("quote", c.eq(q, (p * x * fx + y * fy) * m, scale=1, tol=1e-9))
    c.ensure("quote by name", c.eq(c.meth(o, "tvl", "USDC", mult=m), q))
    b = c.meth(o, "tvl", "ETH", mult=m)
    c.ensure("base", c.eq(b * p, q, scale=1 + q, tol=1e-9))
    v, t, mm = c.items(c.meth(o, "tvl", "ETH", mult=m, incltkn=True))
    c.ensure("with token", c.And(c.eq(v, b), t == "ETH", c.eq(mm, m)))
    c.ensure("other token refused", c.try_meth(o, "tvl", "BNT").raised("ValueError"))
    c.ensure("other token none", c.meth(o, "tvl", "BNT", raiseonerror=False) is None)


# ------------------------------------------------------------------------------------------------ K02
def valid_dx(c, o, x, y, fx, fy, name="u"):
    """any dx for which both balances stay non-negative:  x_min <= x + dx <= x_max, and the state afterwards is finite"""
    dx = c.real(name, rng=(-1, 3)) * x
    c.assume(x + dx > 0)
    c.assume(dx >= -1 * (x * fx))
    c.assume((x + dx) * (y - y * fy) <= x * y)
    return dx


@contract("K02", functions=[P + "execute"], samples=600, weight=4, split=25)
def execute_keeps_the_curve(c):
    """a swap keeps k and the price range, moves x and y along xy = k, and books exactly the amounts traded; the original is unchanged"""
    o, x, y, fx, fy = anycurve(c, params={"q": 3})
    dx = valid_dx(c, o, x, y, fx, fy)
    by = c.choice("by", ["dx", "dy"])
    nx = x + dx
    ny = c.div(x * y, nx)
    dy = ny - y
    before = c.snapshot(o)
    n = c.meth(o, "execute", **({"dx": dx} if by == "dx" else {"dy": dy}))
    T = 1e-7
    c.ensure("k", c.eq(c.attr(n, "k"), x * y))
    c.ensure("x", c.eq(c.attr(n, "x"), nx, tol=T))
    c.ensure("y", c.eq(c.attr(n, "y"), ny, tol=T))
    c.ensure("x balance", c.eq(c.attr(n, "x_act"), x * fx + dx, scale=x + nx, tol=T))
    c.ensure("y balance", c.eq(c.attr(n, "y_act"), y * fy + dy, scale=y + ny, tol=T))
    c.ensure("same lower end", c.eq(c.attr(n, "x_min"), c.attr(o, "x_min"), scale=x + nx, tol=T))
    c.ensure("same upper end", c.eq(c.attr(n, "y_min"), c.attr(o, "y_min"), scale=y + ny, tol=T))
    c.ensure("no balance is negative", c.And(c.ge(c.attr(n, "x_act"), 0, scale=x + nx, tol=T), c.ge(c.attr(n, "y_act"), 0, scale=y + ny, tol=T)))
    c.ensure("same pair and fee", c.And(c.attr(n, "pair") == c.attr(o, "pair"), c.eq(c.attr(n, "fee"), c.attr(o, "fee"))))
    c.ensure("new id", c.attr(n, "cid") == "c0-x")
    c.ensure("parameters kept", c.eq(c.item(c.attr(n, "params"), "q"), 3))
    c.ensure("original unchanged", c.unchanged(before, c.snapshot(o)))


@contract("K02", functions=[P + "execute"], samples=500, weight=3, split=20)
def execute_never_overdraws(c):
    """unless bounds are ignored, a swap that pays out more than the actual balance of either token is refused; with ignorebounds none is"""
    o, x, y, fx, fy = anycurve(c, lev=c.choice("lv", ["both", "xempty", "yempty", "xfull", "yfull"]))
    by = c.choice("by", ["dx", "dy"])
    u = c.real("u", rng=(-2, 5))
    d = u * x if by == "dx" else u * y
    c.assume((x if by == "dx" else y) + d > 0)
    v = x * y
    if by == "dx":
        nx = x + d
        ny = c.div(v, nx)
    else:
        ny = y + d
        nx = c.div(v, ny)
    xa, ya = x * fx + nx - x, y * fy + ny - y
    before = c.snapshot(o)
    r = c.try_meth(o, "execute", **{by: d})
    e = 1e-5
    if r.ok:
        c.ensure("x covered", c.ge(xa, 0, scale=x + nx, tol=e) if not c.symbolic else xa >= -1e-6 * (x - x * fx))
        c.ensure("y covered", c.ge(ya, 0, scale=y + ny, tol=e) if not c.symbolic else ya >= -1e-6 * (y - y * fy))
    else:
        c.ensure("refused as a value error", r.raised("ValueError"))
        c.ensure("only if not covered", c.Or(c.lt(xa, 0, scale=x + nx, tol=e), c.lt(ya, 0, scale=y + ny, tol=e)))
    c.ensure("original unchanged", c.unchanged(before, c.snapshot(o)))
    n = c.meth(o, "execute", ignorebounds=True, **{by: d})
    c.ensure("ignoring bounds: x balance", c.eq(c.attr(n, "x_act"), xa, scale=x + nx, tol=1e-7))
    c.ensure("ignoring bounds: y balance", c.eq(c.attr(n, "y_act"), ya, scale=y + ny, tol=1e-7))
    c.ensure("two amounts are refused", c.try_meth(o, "execute", dx=d, dy=d).raised("ValueError"))


@contract("K02", functions=[P + "execute"], samples=400, weight=3, split=20)
def swaps_compose(c):
    """two swaps in sequence are one swap of the sum; a swap and its reverse restore the curve"""
    o, x, y, fx, fy = anycurve(c)
    d1 = valid_dx(c, o, x, y, fx, fy)
    d2 = c.real("u2", rng=(-1, 3)) * x
    c.assume(x + d1 + d2 > 0)
    a = c.meth(c.meth(o, "execute", dx=d1, ignorebounds=True), "execute", dx=d2, ignorebounds=True)
    b = c.meth(o, "execute", dx=d1 + d2, ignorebounds=True)
    T = 1e-6
    sx, sy = x + c.attr(b, "x"), y + c.attr(b, "y") + c.div(x * y, x + d1)
    for at, s in (("x", sx), ("x_act", sx), ("y_act", sy)):
        c.ensure(f"same {at}", c.eq(c.attr(a, at), c.attr(b, at), scale=s, tol=T))
    r = c.meth(c.meth(o, "execute", dx=d1, ignorebounds=True), "execute", dx=-1 * d1, ignorebounds=True)
    for at, s in (("x", sx), ("x_act", sx), ("y_act", sy)):
        c.ensure(f"restored {at}", c.eq(c.attr(r, at), c.attr(o, at), scale=s, tol=T))


@contract("K02", functions=[P + m for m in ("yfromx_f", "xfromy_f", "dyfromdx_f", "dxfromdy_f")], samples=600, weight=3, split=20)
def swap_functions(c):
    """dy(dx) and dx(dy) stay on the curve, are inverse, opposite in sign, and None exactly outside the range"""
    o, x, y, fx, fy = anycurve(c)
    dx = c.real("u", rng=(-1, 3)) * x
    c.assume(x + dx > 0)
    nx = x + dx
    ny = c.div(x * y, nx)
    T = 1e-6
    xmin, ymin = x - x * fx, y - y * fy
    out = c.Or(nx < xmin, ny < ymin)
    near = False if c.symbolic else (abs(nx - xmin) < 1e-9 * (x + nx) or abs(ny - ymin) < 1e-9 * (y + ny))
    r = c.meth(o, "dyfromdx_f", dx)
    if r is None:
        c.ensure("refused only outside the range", c.Or(out, near))
    else:
        c.ensure("answered only inside the range", c.Or(c.Not(out), near))
        c.ensure("on the curve", c.eq((x + dx) * (y + r), x * y, tol=T))
        c.ensure("opposite sign", c.And(c.Implies(dx > 0, r < 0), c.Implies(dx < 0, r > 0)) if c.symbolic else r * dx <= 0)
    u = c.meth(o, "dyfromdx_f", dx, ignorebounds=True)
    c.ensure("unbounded always answers", c.eq(u, ny - y, scale=ny + y, tol=T))
    b = c.meth(o, "dxfromdy_f", u, ignorebounds=True)
    c.ensure("inverse", c.eq(b, dx, scale=x + nx, tol=T))
    r = c.meth(o, "dxfromdy_f", ny - y)
    if r is None:
        c.ensure("dx refused only outside the range", c.Or(out, near))
    else:
        c.ensure("dx answered only inside the range", c.Or(c.Not(out), near))
        c.ensure("dx on the curve", c.eq(r, dx, scale=x + nx, tol=T))
    r = c.meth(o, "yfromx_f", nx)
    c.ensure("y(x) iff in range", c.Or(near, (c.Not(out) if r is not None else out)))
    if r is not None:
        c.ensure("y(x)", c.eq(r, ny, tol=T))
    r = c.meth(o, "xfromy_f", ny)
    c.ensure("x(y) iff in range", c.Or(near, (c.Not(out) if r is not None else out)))
    if r is not None:
        c.ensure("x(y)", c.eq(r, nx, tol=T))


@contract("K02", functions=[P + m for m in ("dx_min", "dy_min", "dx_max", "dy_max")], samples=400, weight=2, split=15)
def largest_swaps(c):
    """dx_min/dy_min sell a whole balance; dx_max/dy_max are what buys the whole of the other balance, None if no finite amount does"""
    o, x, y, fx, fy = anycurve(c)
    c.ensure("dx_min", c.eq(c.attr(o, "dx_min"), -1 * (x * fx)))
    c.ensure("dy_min", c.eq(c.attr(o, "dy_min"), -1 * (y * fy)))
    xa, ya = c.attr(o, "x_act"), c.attr(o, "y_act")
    for nm, act, virt in (("dx_max", ya, y), ("dy_max", xa, x)):
        m = c.attr(o, nm)
        other = x if nm == "dx_max" else y
        if m is None:
            c.ensure(nm + " none iff unlevered", c.eq(act, virt))
            continue
        if not c.symbolic and virt - act < 1e-9 * virt:
            continue        # the balance is the virtual one up to rounding
        c.ensure(nm + " non-negative", c.ge(m, 0, scale=other, tol=1e-9))
        c.ensure(nm + " buys exactly the balance", c.eq((other + m) * (virt - act), x * y, tol=1e-6))
        n = c.meth(o, "execute", **{nm[:2]: m}, ignorebounds=True)
        c.ensure(nm + " leaves nothing", c.eq(c.attr(n, "y_act" if nm == "dx_max" else "x_act"), 0, scale=virt, tol=1e-6))


# ------------------------------------------------------------------------------------------------ K03
INV = K + "CPCInverter"


@contract("K03", functions=[INV + "." + m for m in ("p", "x", "y", "k", "x_min", "x_max", "y_min", "y_max", "x_act", "y_act", "p_min", "p_max", "pair", "tknx", "tkny", "pairo")],
          samples=500, weight=3, split=20)
def inverter_is_the_mirror_image(c):
    """an inverted curve is the curve of the reversed pair: it agrees in every attribute and function with the curve built that way round"""
    o, x, y, fx, fy = anycurve(c, pair="USDC-eB48/WETH-6Cc2")
    v = c.call(INV, o)
    w = mirrored(c, x, y, fx, fy, "WETH-6Cc2/USDC-eB48")
    T = 1e-7
    for a in ("k", "x", "y", "p", "x_act", "y_act", "x_min", "y_min", "x_max", "y_max", "p_min", "p_max"):
        r = c.try_attr(v, a)
        c.ensure(f"{a} defined", r.ok)
        if not r.ok:
            continue
        e = c.attr(w, a)
        c.ensure(f"{a} none together", (r.value is None) == (e is None))
        if r.value is not None and e is not None:
            c.ensure(f"{a} agrees", c.eq(r.value, e, scale=(x + y) if a in ("x_min", "y_min") else None, tol=T))
    for a in ("pair", "pairp", "tknb", "tknq", "tknx", "tkny", "tknbp", "tknqp", "tknxp", "tknyp"):
        c.ensure(f"{a} agrees", c.attr(v, a) == c.attr(w, a))
    c.ensure("same primary pair", c.attr(c.attr(v, "pairo"), "primary") == c.attr(c.attr(w, "pairo"), "primary") == "WETH-6Cc2/USDC-eB48")
    c.ensure("same id", c.attr(v, "cid") == "c0")
    c.ensure("same convention", c.meth(v, "p_convention") == c.meth(w, "p_convention"))


@contract("K03", functions=[INV + "." + m for m in ("yfromx_f", "xfromy_f", "dyfromdx_f", "dxfromdy_f", "xyfromp_f", "dxdyfromp_f", "execute")],
          samples=500, weight=4, split=25)
def inverter_swaps_like_the_mirror_image(c):
    """swap functions of an inverted curve are those of the curve of the reversed pair"""
    o, x, y, fx, fy = anycurve(c, pair="USDC/ETH")
    v = c.call(INV, o)
    w = mirrored(c, x, y, fx, fy, "ETH/USDC")
    ign = c.choice("ign", [True, False])
    u = c.real("u", rng=(-1, 3))
    c.assume(u > -1)
    which = c.choice("which", ["yfromx_f", "xfromy_f", "dyfromdx_f", "dxfromdy_f", "xyfromp_f", "dxdyfromp_f", "execute-x", "execute-y"])
    T = 1e-6
    S = None
    if which.startswith("execute"):
        d = u * (y if which[-1] == "x" else x)
        kw = {"dx" if which[-1] == "x" else "dy": d}
        a, b = c.try_meth(v, "execute", ignorebounds=ign, **kw), c.try_meth(w, "execute", ignorebounds=ign, **kw)
        if not c.symbolic and a.ok != b.ok:
            c.assume(abs(abs(d) - (y * fy if which[-1] == "x" else x * fx)) > 1e-9 * (x + y))
        c.ensure("both accept or both refuse", a.ok == b.ok)
        if a.ok and b.ok:
            for at in ("x", "y", "x_act", "y_act", "k"):
                c.ensure(f"execute {at}", c.eq(c.attr(a.value, at), c.attr(b.value, at), scale=x + y + c.attr(b.value, "x") + c.attr(b.value, "y"), tol=T))
        return
    if which.startswith(("xyfromp", "dxdyfromp")):
        s = 1 + u
        wu = c.choice("withunits", [False, True])
        kw = {"withunits": True} if wu else {}
        rs, es = c.items(c.meth(v, which, s * s, ignorebounds=ign, **kw)), c.items(c.meth(w, which, s * s, ignorebounds=ign, **kw))
        for r, e, nm in zip(rs, es, ("x", "y", "p")):
            c.ensure(f"{which} {nm}", c.eq(r, e, scale=x + y + e, tol=T))
        c.ensure(f"{which} units", len(rs) == len(es) == (6 if wu else 3) and list(rs[3:]) == list(es[3:]))
        return
    base = {"yfromx_f": y, "xfromy_f": x, "dyfromdx_f": y, "dxfromdy_f": x}[which]
    arg = u * base if which.startswith("d") else (1 + u) * base
    r, e = c.meth(v, which, arg, ignorebounds=ign), c.meth(w, which, arg, ignorebounds=ign)
    if not c.symbolic and (r is None) != (e is None):
        return
    c.ensure(f"{which} none together", (r is None) == (e is None))
    if r is not None and e is not None:
        c.ensure(f"{which} agrees", c.eq(r, e, scale=x + y + (e if e > 0 else -e) if not c.symbolic else None, tol=T))


PAIRS = ["ETH/USDC", "USDC/ETH", "WETH-6Cc2/USDC-eB48", "USDC-eB48/WETH-6Cc2", "LINK/ETH", "ETH/LINK", "LINK/UNI", "UNI/LINK", "WBTC/ETH", "ETH/WBTC", "A-1/A-2", "A-2/A-1", "DAI/USDT"]
PRIMARY = {"ETH/USDC": "ETH/USDC", "USDC/ETH": "ETH/USDC", "WETH-6Cc2/USDC-eB48": "WETH-6Cc2/USDC-eB48", "USDC-eB48/WETH-6Cc2": "WETH-6Cc2/USDC-eB48",
           "LINK/ETH": "LINK/ETH", "ETH/LINK": "LINK/ETH", "LINK/UNI": "LINK/UNI", "UNI/LINK": "LINK/UNI", "WBTC/ETH": "WBTC/ETH", "ETH/WBTC": "WBTC/ETH",
           "A-1/A-2": "A-1/A-2", "A-2/A-1": "A-1/A-2", "DAI/USDT": "DAI/USDT"}


@contract("K03", functions=["carbon.tools.simplepair:SimplePair." + m for m in ("isprimary", "primary", "secondary", "primary_price", "pairr", "pairt", "pairrt", "from_tokens", "wrap", "unwrap")]
          + [P + "pp", INV + ".wrap", INV + ".unwrap"], samples=200)
def primary_pairs(c):
    """a pair and its reverse have the same primary pair; primary prices are those of the primary pair; wrapping brings curves into primary direction"""
    pr = c.choice("pair", PAIRS)
    b, q = pr.split("/")
    p = c.real("p", gt=0, rng=(1e-2, 1e2))
    k = c.real("k", gt=0, rng=(1, 1e3))
    o = c.call(P + "from_pk", p, k, pair=pr, cid=3)
    po = c.attr(o, "pairo")
    rev = c.call("carbon.tools.simplepair:SimplePair.from_tokens", q, b)
    c.ensure("tokens", c.attr(po, "tknb") == b and c.attr(po, "tknq") == q and c.attr(rev, "pair") == f"{q}/{b}")
    c.ensure("reverse", c.attr(po, "pairr") == f"{q}/{b}" and tuple(c.items(c.attr(po, "pairt"))) == (b, q) and tuple(c.items(c.attr(po, "pairrt"))) == (q, b))
    c.ensure("primary", c.attr(po, "primary") == PRIMARY[pr] and c.attr(rev, "primary") == PRIMARY[pr])
    c.ensure("is primary", c.attr(po, "isprimary") == (PRIMARY[pr] == pr))
    c.ensure("secondary is the other one", c.attr(po, "secondary") != PRIMARY[pr] and c.attr(po, "secondary") in (pr, f"{q}/{b}"))
    pp = c.attr(o, "pp")
    c.ensure("primary price", c.eq(pp, p, tol=1e-9) if PRIMARY[pr] == pr else c.eq(pp * p, 1, tol=1e-9))
    w = c.items(c.call(INV + ".wrap", [o]))
    c.ensure("one for one", len(w) == 1)
    c.ensure("wrapped price is the primary price", c.eq(c.attr(w[0], "p"), pp, tol=1e-9))
    c.ensure("wrapped pair is the primary pair", c.attr(w[0], "pair") == PRIMARY[pr])
    u = c.items(c.call(INV + ".unwrap", w))
    c.ensure("unwrap restores", len(u) == 1 and c.same(u[0], o))
    c.ensure("unwrap leaves curves alone", c.same(c.items(c.call(INV + ".unwrap", [o]))[0], o))


# ------------------------------------------------------------------------------------------------ K04
CC = K + "CPCContainer"
LAY = ["ETH/USDC", "USDC/ETH", "LINK/ETH", "WBTC/USDC", "ETH/USDC"]


def container(c, lay=LAY, how=None, cids=None):
    cs = []
    for i, pr in enumerate(lay):
        p = c.real(f"p{i}", gt=0, rng=(1e-2, 1e2))
        k = c.real(f"k{i}", gt=0, rng=(1, 1e3))
        cs.append(c.call(P + "from_pk", p, k, pair=pr, cid=None if cids is None else cids[i]))
    how = how or c.choice("how", ["init", "add", "mixed", "wrapped"])
    if how == "init":
        o = c.call(CC, c.lift(cs))
    elif how == "wrapped":
        o = c.call(CC, c.call(INV + ".wrap", c.lift(cs)))
    elif how == "add":
        o = c.call(CC)
        for x in cs:
            c.meth(o, "add", x)
    else:
        o = c.call(CC, c.lift(cs[:1]))
        o = c.meth(o, "__iadd__", c.lift(cs[1:2]))
        c.meth(o, "add", c.call(INV, cs[2]))
        c.meth(o, "add", c.lift(cs[3:]))
    return o, cs


def members(c, r):
    """curves of a container or tuple"""
    return c.items(c.attr(r, "curves")) if not isinstance(r, (tuple, list)) else list(r)


@contract("K04", functions=[CC + "." + m for m in ("__post_init__", "add", "__iadd__", "__iter__", "__len__", "__getitem__", "__contains__", "curveix", "bycid", "cids")],
          samples=200, weight=2)
def container_holds_what_was_added(c):
    """however curves are added (one by one, in bulk, wrapped): each is there once, in order, under its id, found by id and index"""
    o, cs = container(c)
    n = len(cs)
    got = members(c, o)
    c.ensure("all in order", len(got) == n and all(c.same(a, b) for a, b in zip(got, cs)))
    ids = c.items(c.meth(o, "cids"))
    c.ensure("ids in order", list(ids) == list(range(n)))
    for i, x in enumerate(cs):
        c.ensure("found by id", c.same(c.meth(o, "bycid", i), x))
        c.ensure("found by index", c.same(c.meth(o, "__getitem__", i), x))
        c.ensure("member", c.meth(o, "__contains__", x))
    c.ensure("length", c.meth(o, "__len__") == n)
    c.ensure("unknown id", c.meth(o, "bycid", "nope") is None)


@contract("K04", functions=[CC + ".price"], samples=200, weight=2)
def container_price(c):
    """price(b, q) is the average primary price over all curves of that pair, in either direction; price(q, b) is its inverse; None if there is none"""
    o, cs = container(c)
    p = [c.attr(x, "p") for x in cs]
    pp = c.meth(o, "price", "ETH", "USDC")
    c.ensure("average of the three", c.eq(3 * pp * p[1], (p[0] + p[4]) * p[1] + 1, tol=1e-7))
    c.ensure("inverse", c.eq(c.meth(o, "price", "USDC", "ETH") * pp, 1, tol=1e-7))
    c.ensure("single curve", c.eq(c.meth(o, "price", "LINK", "ETH"), p[2], tol=1e-7))
    c.ensure("single curve reversed", c.eq(c.meth(o, "price", "ETH", "LINK") * p[2], 1, tol=1e-7))
    c.ensure("no such pair", c.meth(o, "price", "LINK", "USDC") is None)


@contract("K04", functions=[CC + "." + m for m in ("bypair", "bypairs", "bycids", "bytknx", "bytkny", "bytknxs", "bytknys", "copy", "_convert")], samples=200, weight=2)
def container_selections(c):
    """selections return exactly the matching curves, the same objects, once each; the container itself is unchanged"""
    o, cs = container(c, how="init")
    as_ = c.choice("as", ["cc", "tuple", "generator"])
    kw = {"cc": {}, "tuple": dict(ascc=False), "generator": dict(asgenerator=True)}[as_]
    b, q = [x.split("/")[0] for x in LAY], [x.split("/")[1] for x in LAY]
    sel = c.choice("sel", ["pair", "pair rev", "pair dir", "pairs", "pairs str", "pairs dir", "pairs all", "inc", "exc", "inc exc", "all ids", "tknx", "tkny", "tknxs", "tknys", "copy", "none"])
    R = range(len(LAY))
    if sel == "pair":
        r, want = c.meth(o, "bypair", "ETH/USDC", **kw), [0, 1, 4]
    elif sel == "pair rev":
        r, want = c.meth(o, "bypair", "USDC/ETH", **kw), [0, 1, 4]
    elif sel == "pair dir":
        r, want = c.meth(o, "bypair", "ETH/USDC", directed=True, **kw), [0, 4]
    elif sel == "pairs":
        r, want = c.meth(o, "bypairs", ["USDC/ETH", "ETH/LINK"], **kw), [0, 1, 2, 4]
    elif sel == "pairs str":
        r, want = c.meth(o, "bypairs", "USDC/ETH,WBTC/USDC", **kw), [0, 1, 3, 4]
    elif sel == "pairs dir":
        r, want = c.meth(o, "bypairs", ["USDC/ETH", "ETH/LINK"], directed=True, **kw), [1]
    elif sel == "pairs all":
        r, want = c.meth(o, "bypairs", **kw), list(R)
    elif sel == "inc":
        r, want = c.meth(o, "bycids", [3, 0], **kw), [0, 3]
    elif sel == "exc":
        r, want = c.meth(o, "bycids", exclude=[3, 0], **kw), [1, 2, 4]
    elif sel == "inc exc":
        r, want = c.meth(o, "bycids", [3, 0, 1], exclude=[3, 4], **kw), [0, 1]
    elif sel == "all ids":
        r, want = c.meth(o, "bycids", **kw), list(R)
    elif sel == "tknx":
        r, want = c.meth(o, "bytknx", "ETH", **kw), [0, 4]
    elif sel == "tkny":
        r, want = c.meth(o, "bytkny", "ETH", **kw), [1, 2]
    elif sel == "tknxs":
        r, want = c.meth(o, "bytknxs", "ETH, LINK", **kw), [0, 2, 4]
    elif sel == "tknys":
        r, want = c.meth(o, "bytknys", ["ETH"], **kw), [1, 2]
    elif sel == "copy":
        r, want = c.meth(o, "copy"), list(R)
    else:
        r, want = c.meth(o, "bypair", "LINK/USDC", **kw), []
    got = members(c, r) if as_ == "cc" or sel == "copy" else c.items(r)
    c.ensure("exactly the matching curves", len(got) == len(want) and all(any(c.same(g, cs[i]) for g in got) for i in want))
    now = members(c, o)
    c.ensure("container unchanged", len(now) == len(cs) and all(c.same(x, z) for x, z in zip(now, cs)))
    c.ensure("tokens", set(c.items(c.meth(o, "tokens"))) == set(b) | set(q))
    c.ensure("x tokens", set(c.items(c.meth(o, "tknxs"))) == set(b) and list(c.items(c.meth(o, "tknxl"))) == b)
    c.ensure("y tokens", set(c.items(c.meth(o, "tknys"))) == set(q) and list(c.items(c.meth(o, "tknyl"))) == q)
    c.ensure("primary pairs", set(c.items(c.meth(o, "pairs"))) == {"ETH/USDC", "LINK/ETH", "WBTC/USDC"})
    c.ensure("pairs as they are", set(c.items(c.meth(o, "pairs", standardize=False))) == set(LAY))


FPP = ["ETH/USDC", "LINK/ETH", "WBTC/USDC", "LINK/UNI", "BNT/ETH"]
FPC = {
    "bothin": lambda b, q, s: b in s and q in s,
    "onein": lambda b, q, s: b in s or q in s,
    "contains": lambda b, q, s: b in s or q in s,
    "notin": lambda b, q, s: b not in s and q not in s,
    "tknbin": lambda b, q, s: b in s,
    "tknbnotin": lambda b, q, s: b not in s,
    "tknqin": lambda b, q, s: q in s,
    "tknqnotin": lambda b, q, s: q not in s,
}


@contract("K04", functions=[CC + ".filter_pairs", CC + ".pairset", CC + ".fp", CC + ".fpb", CC + ".fpo"], samples=300, weight=2, max_paths=2600)
def pair_filters(c):
    """each documented filter condition keeps exactly the pairs it describes; conditions combine as all or any"""
    o = c.call(CC)
    c1 = c.choice("c1", sorted(FPC))
    c2 = c.choice("c2", ["-"] + sorted(FPC))
    s1 = c.choice("s1", ["ETH,USDC", "LINK", "ETH, UNI ,LINK", "XYZ"])
    s2 = c.choice("s2", ["ETH", "LINK,WBTC"]) if c2 != "-" else None
    anyall = c.choice("anyall", ["any", "all"])
    kw = {c1 + c.choice("sfx", ["", "_1"]): s1}
    if c2 != "-":
        kw[c2 + "_2"] = s2
    as_set = lambda s: {t.strip() for t in s.split(",")}
    got = set(c.items(c.meth(o, "filter_pairs", list(FPP), anyall=anyall, **kw)))
    want = set()
    for p in FPP:
        b, q = p.split("/")
        hits = [FPC[c1](b, q, as_set(s1))] + ([FPC[c2](b, q, as_set(s2))] if c2 != "-" else [])
        if (any if anyall == "any" else all)(hits):
            want.add(p)
    c.ensure("exactly the pairs described", got == want)
    c.ensure("no condition keeps all", set(c.items(c.meth(o, "filter_pairs", list(FPP)))) == set(FPP))
    c.ensure("unknown condition refused", c.try_meth(o, "filter_pairs", list(FPP), foo="ETH").raised("ValueError"))
    c.ensure("unknown combination refused", c.try_meth(o, "filter_pairs", list(FPP), anyall="most", onein="ETH").raised("ValueError"))


@contract("K04", functions=[CC + ".asdicts", CC + ".from_dicts", P + "asdict", P + "from_dict"], samples=200, weight=1)
def dict_round_trip(c):
    """a container is restored from its list of dictionaries: every curve keeps all its numbers, labels and parameters"""
    cs = []
    for i, pr in enumerate(LAY[:3]):
        o, x, y, fx, fy = anycurve(c, pre=f"{i}", lev="both", pair=pr, cid=f"id{i}", params={"a": {"b": i}, "n": i}, constr="xy")
        cs.append(o)
    o = c.call(CC, c.lift(cs))
    n = c.call(CC + ".from_dicts", c.meth(o, "asdicts"))
    got = members(c, n)
    c.ensure("as many", len(got) == 3)
    for i, (a, b) in enumerate(zip(cs, got)):
        for at in ATTRS + ("fee",):
            c.ensure(at, c.exact(c.attr(a, at), c.attr(b, at)) if not c.symbolic else c.eq(c.attr(a, at), c.attr(b, at)))
        for at in ("pair", "cid", "descr", "constr"):
            c.ensure(at, c.attr(a, at) == c.attr(b, at))
        c.ensure("parameters", c.meth(b, "P", "a:b") == i and c.meth(b, "P", "n") == i and c.meth(b, "P", "zz", 7) == 7 and c.meth(b, "P", "a:zz") is None)
        c.ensure("another object", not c.same(a, b))
