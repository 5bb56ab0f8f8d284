"""Contracts for orders and their single-order quotes (carbon/order.py, carbon/routers/*) : O01, R01."""
from pyvc.api import contract

O = "carbon.order:Order"
X0 = "carbon.routers.exact_router_x0y0n:ExactRouterX0Y0N"
XB = "carbon.routers.exact_base_router:ExactBase."
FR = "carbon.routers.fast_router:FastRouter"
AR = "carbon.routers.alpha_router:AlphaRouter"


def params(c, pre="", flat=False):
    """(r, B, S): any price range with p_low = B^2 > 0, p_high = (B+S)^2; r is the fourth root of p_low/p_high"""
    r = c.real(pre + "r", gt=0, lt=1, rng=(0.5, 0.99))
    Q = c.real(pre + "Q", gt=0, rng=(1e-2, 1e2))
    B = Q * r * r
    return r, B, Q - B


def order(c, pre="", full=False, how="BS"):
    r, B, S = params(c, pre)
    z = c.real(pre + "z", gt=0, rng=(1e-2, 1e5))
    y = z if full else z * c.real(pre + "y_frac", lo=0, hi=1)
    if how == "BS":
        o = c.call(O, B=c.dec(B), S=c.dec(S), y_int=c.dec(z), _y=c.dec(y))
    else:
        o = c.call(O, p_low=c.dec(B * B), p_high=c.dec((B + S) * (B + S)), y_int=c.dec(z), _y=c.dec(y))
    return o, B, S, z, y


@contract("O01", functions=[O + ".__post_init__"], samples=600, budget=60)
def order_from_curve_parameters(c):
    """B and S determine the price range: the end price is B^2, the start price (B+S)^2 (reciprocals, in order, for a reversed quote)"""
    B = c.real("B", gt=0, rng=(1e-2, 1e2))
    S = c.real("S", lo=0, rng=(1e-3, 1e2))
    z = c.real("z", gt=0, rng=(1e-2, 1e5))
    y = z * c.real("y_frac", lo=0, hi=1)
    rev = c.bool("reverse")
    o = c.call(O, B=c.dec(B), S=c.dec(S), y_int=c.dec(z), _y=c.dec(y), _reverseq=rev)
    lo, hi = c.flt(c.attr(o, "p_low")), c.flt(c.attr(o, "p_high"))
    a, b = (B + S) * (B + S), B * B
    if rev:
        c.ensure("reciprocal prices", c.And(c.eq(lo * a, 1), c.eq(hi * b, 1)))
        c.ensure("native prices", c.And(c.eq(c.flt(c.attr(o, "pa")) * a, 1), c.eq(c.flt(c.attr(o, "pb")) * b, 1)))
    else:
        c.ensure("prices", c.And(c.eq(lo, b), c.eq(hi, a)))
        c.ensure("native prices", c.And(c.eq(c.attr(o, "pa"), a), c.eq(c.attr(o, "pb"), b)))
    c.ensure("ordered", c.le(lo, hi))
    c.ensure("raw prices", c.And(c.eq(c.attr(o, "pa_raw"), a), c.eq(c.attr(o, "pb_raw"), b)))
    c.ensure("capacity and liquidity as given", c.And(c.eq(c.attr(o, "y_int"), z), c.eq(c.attr(o, "D"), z), c.eq(c.attr(o, "y"), y), c.Or(c.eq(y, 0), c.eq(c.attr(o, "C"), y))))
    c.ensure("curve parameters kept", c.And(c.eq(c.attr(o, "B"), B), c.eq(c.attr(o, "S"), S)))


@contract("O01", functions=[O + ".__post_init__"], samples=600, budget=60)
def order_from_prices(c):
    """two prices in either order determine B and S; capacity defaults to the liquidity, or is given, or follows from the marginal price"""
    r, B, S = params(c)
    pl, ph = B * B, (B + S) * (B + S)
    if c.bool("equal"):
        ph, S = pl, 0 * S
    swap = c.bool("swap")
    y = c.real("y", gt=0, rng=(1e-2, 1e5))
    how = c.choice("capacity", ["default", "y_int", "D"])
    z = y * (1 + c.real("extra", lo=0, hi=10)) if how != "default" else y
    kw = {} if how == "default" else {how: c.dec(z)}
    o = c.call(O, p_low=c.dec(ph if swap else pl), p_high=c.dec(pl if swap else ph), _y=c.dec(y), **kw)
    c.ensure("price order", c.And(c.eq(c.attr(o, "p_low"), pl), c.eq(c.attr(o, "p_high"), ph)))
    c.ensure("curve parameters", c.And(c.eq(c.attr(o, "B"), B), c.eq(c.flt(c.attr(o, "B")) + c.flt(c.attr(o, "S")), B + S)))
    c.ensure("capacity", c.And(c.eq(c.attr(o, "y_int"), z), c.eq(c.attr(o, "D"), z)))
    c.ensure("liquidity", c.And(c.eq(c.attr(o, "y"), y), c.eq(c.attr(o, "C"), y)))


@contract("O01", functions=[O + ".__post_init__"], samples=600, budget=60)
def order_from_marginal_price(c):
    """given the liquidity and a marginal price inside the range, the capacity is the one whose curve has that marginal price at that liquidity"""
    r, B, S = params(c)
    y = c.real("y", gt=0, rng=(1e-2, 1e5))
    m = c.real("m", gt=0, hi=1, rng=(0.05, 1))
    sq = B + S * m
    swap = c.bool("swap")
    pl, ph = B * B, (B + S) * (B + S)
    o = c.call(O, p_low=c.dec(ph if swap else pl), p_high=c.dec(pl if swap else ph), _y=c.dec(y), p_marginal=c.dec(sq * sq))
    z = c.flt(c.attr(o, "y_int"))
    c.ensure("capacity", c.eq(z * m, y))
    c.ensure("same capacity everywhere", c.eq(c.attr(o, "D"), z))
    c.ensure("capacity at least the liquidity", c.ge(z, y, scale=y))
    c.ensure("marginal price at the liquidity", c.eq((B + c.div(S * y, z)) * (B + c.div(S * y, z)), sq * sq))


@contract("O01", functions=[O + ".__post_init__"], samples=100, budget=30)
def incomplete_orders_refused(c):
    """an order without liquidity or without a price range is refused"""
    r, B, S = params(c)
    y = c.real("y", gt=0, rng=(1e-2, 1e5))
    for out in (c.try_(O, p_low=c.dec(B), p_high=c.dec(B + S)), c.try_(O, p_low=c.dec(B), p_high=c.dec(B + S), y_int=c.dec(y)), c.try_(O, _y=c.dec(y), y_int=c.dec(y)),
                c.try_(O, y_int=c.dec(y))):
        c.ensure("refused", c.Not(out.ok))


@contract("O01", functions=[O + "." + f for f in ("n", "x0", "y0", "k", "x", "a", "p")] + [XB + "dxdy"], samples=600, budget=90)
def hyperbola_is_the_curve(c):
    """the shifted hyperbola (x0, y0, n) of an order is the curve of its prices and capacity, whatever the size of the capacity"""
    o, B, S, z, y = order(c, how=c.choice("how", ["BS", "prices"]))
    x, n, y0, x0 = [c.flt(c.attr(o, f)) for f in ("x", "n", "y0", "x0")]
    xr = c.div(z * (z - y), (B * z + S * y) * (B + S))
    c.ensure("x on the curve", c.eq(x, xr, scale=c.div(z, B * (B + S))))
    c.ensure("concentration", c.And(c.gt(n, 0), c.lt(n, 1), c.eq((1 - n) * (1 - n) * (B + S), B)))
    c.ensure("geometric mean price", c.eq(c.attr(o, "p"), B * (B + S)))
    c.ensure("centre of the curve", c.And(c.eq(y0, x0 * c.flt(c.attr(o, "p"))), c.eq(c.attr(o, "k"), x0 * y0)))
    c.ensure("centre lies on the curve at the mean price", c.eq((B * z + S * y0) * (B * z + S * y0), B * (B + S) * z * z))


@contract("O01", functions=[O + ".y", O + ".C"], samples=50, budget=20)
def liquidity_accessors(c):
    """liquidity set through either accessor is read back; a zero balance reads as the capacity only through the legacy alias"""
    o, B, S, z, y = order(c)
    v = c.real("v", lo=0, rng=(0, 1e4))
    c.setattr(o, "y", c.dec(v))
    c.ensure("y set", c.eq(c.attr(o, "y"), v))
    w = c.real("w", gt=0, rng=(1, 1e4))
    c.setattr(o, "C", c.dec(w))
    c.ensure("C set, y kept", c.And(c.eq(c.attr(o, "C"), w), c.eq(c.attr(o, "y"), v)))


# -- quotes -------------------------------------------------------------------------------------------
def ref_dx(c, dy, y, B, S, z):
    """x to pay for dy: the curve's swap function"""
    return c.div(dy * z * z, (S * y + B * z) * (S * y + B * z - S * dy))


def ref_dy(c, dx, y, B, S, z):
    t = S * y + B * z
    return c.div(dx * t * t, S * dx * t + z * z)


def router(c, ref, orders):
    r = c.call(ref)
    c.setattr(r, "orders", list(orders))
    return r


@contract("R01", functions=[XB + "dxdy"], samples=600, budget=90)
def exact_quote_is_the_curve(c):
    """the amount received for giving dy out of an order is the curve's, for every order and every size of trade"""
    o, B, S, z, y = order(c, how=c.choice("how", ["BS", "prices"]))
    dy = y * c.real("dy_frac", lo=0, hi=1)
    r = router(c, X0, [o])
    c.ensure("dx", c.eq(c.meth(r, "dxdy", 0, c.dec(-dy)), ref_dx(c, dy, y, B, S, z)))


@contract("R01", functions=[FR + ".amt_by_src", FR + ".amt_by_target", AR + ".amt_by_src", AR + ".amt_by_target", AR + ".get_geoprice"], samples=600, budget=90)
def single_order_quotes_agree(c):
    """the fast and the alpha router quote the same curve: amount to pay for a target, amount received for a source"""
    o, B, S, z, y = order(c)
    which = c.choice("router", [FR, AR])
    r = router(c, which, [o])
    a = c.real("amount", lo=0, rng=(0, 1e4))
    if c.bool("by_target"):
        c.assume(c.lt(a, y))
        got = c.meth(r, "amt_by_src" if which == FR else "amt_by_target", 0, c.dec(a))
        c.ensure("x for y", c.eq(got, ref_dx(c, a, y, B, S, z)))
    else:
        got = c.meth(r, "amt_by_target" if which == FR else "amt_by_src", 0, c.dec(a))
        c.ensure("y for x", c.eq(got, ref_dy(c, a, y, B, S, z)))
    if which == AR:
        c.ensure("mean price", c.eq(c.flt(c.meth(r, "get_geoprice", 0)) * B * (B + S), 1))


# -- the exact router -----------------------------------------------------------------------------------------
# An order is seen through its contract only (O01 hyperbola_is_the_curve): a hyperbola with centre (x0, y0), concentration n in (0,1),
# liquidity y >= 0, k = x0 y0, x = x(y), a = k(n-1) - n x0 y.  With s = sqrt(k):  sqrt of the marginal rate at liquidity v is
# (n v + y0 (1-n)) / s,  and giving dy receives  -k dy / ((n y + y0(1-n)) (n (y+dy) + y0(1-n))).
class H:
    def __init__(self, c, pre, full=False, pos=False):
        self.c = c
        if not c.symbolic and not pre.startswith("o0_") and c.choice(pre + "like", [0, 0, 0, 0, 1, 2]):
            # in the sampled runs some orders have the same price range (or are the same curve) as the first one
            first = "o0_"
            self.n, self.s, self.y0, self.y = (c.inputs[first + k] for k in ("n", "s", "y0", "y"))
            if c.inputs["#" + pre + "like"] != 5:
                self.y = c.real(pre + "y", gt=0, rng=(1e-1, 1e3)) if pos else c.real(pre + "y", lo=0, rng=(1e-1, 1e3))
            self.make()
            return
        self.n = c.real(pre + "n", gt=0, lt=1, rng=(1e-2, 0.9))
        self.s = c.real(pre + "s", gt=0, rng=(1e-1, 1e2))
        self.y0 = c.real(pre + "y0", gt=0, rng=(1e-1, 1e3))
        self.y = c.real(pre + "y", gt=0, rng=(1e-1, 1e3)) if pos else c.real(pre + "y", lo=0, rng=(1e-1, 1e3))
        self.make()

    def make(self):
        c = self.c
        D = c.dec
        n, s, y0, y = D(self.n), D(self.s), D(self.y0), D(self.y)
        k = s * s
        x0 = c.div(k, y0)
        x = c.div(x0 * (n * y - y + y0 * (2 - n)), n * y + y0 * (1 - n))
        self.o = c.record(n=n, x0=x0, y0=y0, y=y, k=k, x=x, a=k * (n - 1) - n * x0 * y)

    def t(self, v):
        return self.n * v + self.y0 * (1 - self.n)

    def m(self, v):
        """square root of the marginal rate (out per in) at liquidity v"""
        return self.c.div(self.t(v), self.s)

    def dx(self, dy):
        return self.c.div(-1 * self.s * self.s * dy, self.t(self.y) * self.t(self.y + dy))


def exact_split(c, n, by_target):
    hs = [H(c, f"o{i}_") for i in range(n)]
    r = router(c, X0, [h.o for h in hs])
    sub = list(range(n))
    a = c.real("amount", gt=0, rng=(1e-3, 1e2))
    if not by_target:
        # the source amount all of them together can absorb before a marginal rate reaches zero
        x_s = sum([c.div(h.s * h.s, h.n * h.t(h.y)) for h in hs[1:]], c.div(hs[0].s * hs[0].s, hs[0].n * hs[0].t(hs[0].y)))
    got = []
    for i in sub:
        got.append(c.flt(c.meth(r, "amt_by_target" if by_target else "amt_by_src", i, c.dec(-a if by_target else a), sub)))
    return hs, a, got


def by_target_split(c, n):
    hs, a, dy = exact_split(c, n, True)
    c.ensure("amounts add up to the target", c.eq(sum(dy[1:], dy[0]), -a, scale=0 if c.symbolic else sum(abs(d) for d in dy)))
    m0 = hs[0].m(hs[0].y + dy[0])
    for h, d in zip(hs[1:], dy[1:]):
        c.ensure("marginal rates equal after the trade", c.eq(h.m(h.y + d), m0, scale=h.m(h.y)))


def by_source_split(c, n):
    """common rate m after the trade solves  sum_i (s_i^2/n_i) (1/(s_i m) - 1/t_i) = a"""
    hs, a, dy = exact_split(c, n, False)
    if not c.symbolic:
        for h, d in zip(hs, dy):
            c.assume(h.m(h.y + d) > 1e-3 * h.m(h.y))
    num = [c.div(h.s, h.n) for h in hs]
    den = [c.div(h.s * h.s, h.n * h.t(h.y)) for h in hs]
    N, W = sum(num[1:], num[0]), a + sum(den[1:], den[0])
    for h, d in zip(hs, dy):
        c.ensure("every order ends at the common marginal rate", c.eq(h.m(h.y + d) * W, N, scale=h.m(h.y) * W))
    if n < 3:
        dx = [h.dx(d) for h, d in zip(hs, dy)]
        c.ensure("amounts paid add up to the source amount", c.eq(sum(dx[1:], dx[0]), a, scale=0 if c.symbolic else sum(abs(d) for d in dx)))


def source_rate_lemma(c):
    """orders that all end at the rate m with m (a + sum s^2/(n t)) = sum s/n  have been paid exactly a in total"""
    hs = [H(c, f"o{i}_") for i in range(3)]
    a = c.real("amount", gt=0, rng=(1e-3, 1e2))
    num = [c.div(h.s, h.n) for h in hs]
    den = [c.div(h.s * h.s, h.n * h.t(h.y)) for h in hs]
    m = c.div(sum(num[1:], num[0]), a + sum(den[1:], den[0]))
    dx = []
    for h in hs:
        dy = c.div(h.s * m - h.t(h.y), h.n)          # t(y + dy) = s m
        dx.append(h.dx(dy))
    c.ensure("amounts paid add up to the source amount", c.eq(sum(dx[1:], dx[0]), a, scale=0 if c.symbolic else sum(abs(d) for d in dx)))


TG = [X0 + ".amt_by_target", X0 + ".handle_subfunctions_target"]
SR = [X0 + ".amt_by_src", X0 + ".handle_subfunctions_src", X0 + ".b_src"]


def _register():
    for n in (1, 2, 3):
        def tgt(c, n=n):
            """the split adds up to the target and leaves every order at the same marginal rate"""
            by_target_split(c, n)

        def src(c, n=n):
            """the amounts paid add up to the source amount and every order ends at the same marginal rate"""
            by_source_split(c, n)
        contract("R02", functions=TG, samples=300, budget=120, kind="proved-bounded", name=f"exact_target_split_{n}")(tgt)
        contract("R02", functions=SR, samples=300, budget=120, kind="proved-bounded", name=f"exact_source_split_{n}")(src)
    contract("R02", functions=SR, samples=300, budget=120, kind="proved-bounded")(source_rate_lemma)


_register()


EPS = 1e-11      # reported amounts are rounded to 12 decimals


def near(c, a, b, scale=0):
    return c.And(c.le(a - b, EPS, scale=scale), c.le(b - a, EPS, scale=scale))


def exact_match(c, n, by_target, pos=True):
    """either refused, or: only orders with liquidity are used, none gives more than it has, every input is the curve's price of its output,
    the totals are those asked for, and no order ends at a better rate than another one that could have given more"""
    hs = [H(c, f"o{i}_", pos=pos) for i in range(n)]
    r = router(c, X0, [h.o for h in hs])
    a = c.real("amount", gt=0, rng=(1e-2, 1e3))
    out = c.try_meth(r, "match_by_target" if by_target else "match_by_src", c.dec(-a if by_target else a))
    ys = [h.y for h in hs]
    if not out.ok:
        c.ensure("refused only for lack of liquidity or precision", out.raised("AssertionError", "RuntimeError", "ZeroDivisionError", "IndexError"))
        if by_target:
            c.ensure("enough liquidity is never refused", c.gt(a, sum(ys[1:], ys[0]) * (1 - (0 if c.symbolic else 1e-9))))
        elif n == 1 or not c.symbolic:
            caps = [h.dx(-1 * h.y) for h in hs]
            c.ensure("an amount the orders can absorb is never refused", c.gt(a, sum(caps[1:], caps[0]) * (1 - (0 if c.symbolic else 1e-9))))
        return
    acts = c.items(out.value)
    used = [c.attr(x, "index") for x in acts]
    c.ensure("each order used at most once", len(set(used)) == len(used) and all(u in range(n) for u in used))
    give = {}
    paid = []
    for x, i in zip(acts, used):
        h = hs[i]
        o, p = c.flt(c.attr(x, "output")), c.flt(c.attr(x, "input"))
        give[i] = o
        paid.append(p)
        c.ensure("gives something, at most what it has", c.And(c.le(o, EPS), c.ge(o, -1 * h.y - EPS, scale=h.y)))
        if c.symbolic and n > 1:
            continue         # with several orders: the split is decided by R02 before rounding, the rounded report by the sampled runs
        # the amounts are reported rounded: the reported input lies between the curve's prices of the outputs that round to the reported one
        t, lo, hi = h.t(h.y), h.t(h.y + o + EPS), h.t(h.y + o - EPS)
        c.ensure("the input is at least the curve's price of the output", c.ge((p + EPS) * t * lo, h.s * h.s * (-1 * o - EPS), scale=p * t * lo))
        c.ensure("the input is at most the curve's price of the output",
                 c.Implies(c.gt(hi, 0), c.le((p - EPS) * t * hi, h.s * h.s * (EPS - o), scale=p * t * hi)))
    outs = [give[i] for i in used]
    if by_target:
        c.ensure("outputs add up to the target", near(c, sum(outs[1:], outs[0]), -1 * a, scale=a))
    else:
        c.ensure("inputs add up to the source", near(c, sum(paid[1:], paid[0]), a, scale=a))
    last = acts[-1]
    c.ensure("reported total output", near(c, c.flt(c.attr(last, "total_output")), sum(outs[1:], outs[0]), scale=a))
    c.ensure("reported total input", near(c, c.flt(c.attr(last, "total_input")), sum(paid[1:], paid[0]), scale=sum(paid)))
    for i in range(n):
        for j in range(n):
            if i != j and i in give and not c.symbolic:
                hi, hj = hs[i], hs[j]
                left = hj.y + give.get(j, 0)
                c.ensure("no used order ends below another's rate", c.Implies(c.gt(left, EPS), c.ge(hi.m(hi.y + give[i]), hj.m(left), tol=1e-6, scale=hj.m(hj.y))))


MATCH = [XB + "match", XB + "match_by_target", XB + "match_by_src", XB + "check_partial_swaps"] + TG + SR


def _register_match():
    for n, bt, kind in ((1, True, "proved"), (2, True, "proved-bounded"), (1, False, "proved"), (2, False, "bounded"), (3, True, "bounded"),
                        (5, True, "bounded"), (3, False, "bounded"), (5, False, "bounded")):
        def f(c, n=n, bt=bt, kind=kind):
            exact_match(c, n, bt, pos=kind != "bounded")
        f.__doc__ = exact_match.__doc__
        contract("R03", functions=MATCH, samples=300 if kind != "bounded" else 1500, budget=90, kind=kind, unroll=12,
                 name=f"exact_match_{'target' if bt else 'source'}_{n}", weight=2)(f)


_register_match()
