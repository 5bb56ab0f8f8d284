"""Contracts for the simulator (carbon/simulators/carbon_simulator.py) : S01, S02, S03."""
from pyvc.api import contract

SIMC = "carbon.simulators.carbon_simulator:"
SIM = SIMC + "CarbonSimulatorUI"
ORDER = "carbon.order:Order"
ACTION = "carbon.routers.base_router:Action"
EPS = 1e-45


def new_sim(c, mm="exact", raiseonerror=False, pair="ETH/USDC"):
    return c.call(SIM, pair=pair, raiseonerror=raiseonerror, matching_method=mm)


def add_order(c, sim, oid, lid, tkn, pair_name="ETHUSDC", disabled=False, empty=False):
    """an order object in the simulator, in any state"""
    D = c.dec
    B = c.real(f"B{oid}", gt=0, rng=(1e-2, 10))
    S = c.real(f"S{oid}", gt=0, rng=(1e-2, 10))
    y = 0 if empty else c.real(f"y{oid}", gt=0, rng=(1e-1, 1e3))
    yint = y + c.real(f"room{oid}", lo=0, rng=(1e-1, 1e3))
    o = c.call(ORDER, B=D(B), S=D(S), y_int=D(yint), _y=D(y), tkn=tkn, pair=c.attr(sim, "carbon_pair"), pair_name=pair_name,
               id=oid, linked_to_id=lid, disabled=disabled)
    return o


class World:
    """a simulator with two strategies (0-1, 2-3), a single order (4), a disabled and an empty order and one of another pair"""
    def __init__(self, c, mm, raiseonerror=False, small=False):
        self.c = c
        self.sim = sim = new_sim(c, mm, raiseonerror)
        self.tkn = c.choice("tkn", ["ETH", "USDC"])
        self.tkno = "USDC" if self.tkn == "ETH" else "ETH"
        t, u = self.tkn, self.tkno
        lay = [(0, 1, t), (1, 0, u), (2, 3, t), (3, 2, u), (4, 4, t)]
        if small:
            lay = [(0, 1, t), (1, 0, u), (4, 4, t)]
        self.o = {}
        for i, l, tk in lay:
            self.o[i] = add_order(c, sim, i, l, tk)
        self.usable = [i for i, _, tk in lay if tk == t]
        if not small:
            self.o[5] = add_order(c, sim, 5, 5, t, disabled=True)
            self.o[6] = add_order(c, sim, 6, 6, t, empty=True)
            self.o[7] = add_order(c, sim, 7, 7, t, pair_name="BNTUSDC")
        c.setattr(sim, "orders", dict(self.o))
        self.y0 = {i: c.attr(o, "y") for i, o in self.o.items()}
        self.cap0 = {i: c.attr(o, "y_int") for i, o in self.o.items()}
        self.before = c.snapshot(*self.o.values())
        self.offered = None

    def stub(self, nroutes, fast_target, fail=False):
        """a router that satisfies its contract: distinct orders out of those offered, positive amounts, totals on the last action"""
        c = self.c
        m = c.attr(self.sim, "matcher")
        self.given = []
        self.routes = []

        def route(x, threshold_orders=None, support_partial=None):
            self.given.append(x)
            self.offered = [c.attr(o, "id") for o in c.items(c.attr(m, "orders"))]
            if fail:
                raise_(c)
            acts = []
            so = si = 0
            for k in range(nroutes):
                j = k if k < len(self.offered) else 0
                out, inp = c.real(f"out{k}", gt=0, rng=(1e-3, 1e2)), c.real(f"in{k}", gt=0, rng=(1e-3, 1e2))
                so, si = so + out, si + inp
                o, i = (inp, out) if fast_target else (-1 * out, inp)
                # positional index within the orders offered
                acts.append(c.call(ACTION, index=j, output=o, input=i))
                self.routes.append((self.offered[j], out, inp))
            c.setattr(acts[-1], "total_output", -1 * si if fast_target else -1 * so)
            c.setattr(acts[-1], "total_input", so if fast_target else si)
            self.out, self.inp = so, si
            return c.lift(acts)
        for name in ("match_by_target", "match_by_src"):
            c.setattr(m, name, c.func(route, name))

    def price(self):
        """average price in the convention of the pair: USDC per ETH"""
        c = self.c
        return c.div(self.out, self.inp) if self.tkn == "USDC" else c.div(self.inp, self.out)

    def y(self, i):
        return self.c.attr(self.o[i], "y")

    def cap(self, i):
        return self.c.attr(self.o[i], "y_int")


def raise_(c):
    if c.symbolic:
        c.I.raise_(AssertionError, "no route")
    raise AssertionError("no route")


def close(c, a, b, scale=0):
    return c.And(c.le(c.flt(a) - c.flt(b), EPS, scale=scale), c.le(c.flt(b) - c.flt(a), EPS, scale=scale))


def same(c, flag, want):
    return flag if want else c.Not(flag)


def do_trade(c, w, by_target, **kw):
    amt = c.real("amt", gt=0, rng=(1e-2, 1e3))
    if by_target:
        return amt, c.meth(w.sim, "amm_sells", w.tkn, amt, **kw)
    return amt, c.meth(w.sim, "amm_buys", w.tkno, amt, **kw)


TRADE = [SIM + "._trade", SIM + ".amm_sells", SIM + ".amm_buys", SIM + "._assert_position_is_valid", SIM + "._get_tkn_and_validate"]


def moved(c, w, skip=()):
    """the effect of an executed trade on every order"""
    for i in w.o:
        dy, dl, linked = 0, 0, False
        for j, out, inp in w.routes:
            if j == i:
                dy = dy - out
            lk = c.attr(w.o[j], "linked_to_id")
            if lk == i and lk != j:
                dl, linked = dl + inp, True
        exp = c.flt(w.y0[i]) + dy + dl
        c.ensure("every order gives what it sold and its linked order gets what was paid, others are untouched", close(c, w.y(i), exp, scale=exp))
        c.ensure("capacity grows only when overfilled", close(c, w.cap(i), c.If(c.flt(w.y(i)) > c.flt(w.cap0[i]), c.flt(w.y(i)), c.flt(w.cap0[i])), scale=exp)
                 if linked else c.eq(w.cap(i), w.cap0[i]))


def records(c, w, sim, executed, limitfail, n, num):
    tr = c.attr(sim, "trades")
    uids = [f"{num}.{k}" for k in range(n)] + [f"{num}"]
    c.ensure("one record per route and one for the trade", [k for k, _ in c.dict_items(tr)] == uids)
    for k, uid in enumerate(uids):
        t = c.item(tr, uid)
        g = lambda f: c.item(c.item(t, f), 0)
        out, inp = (w.routes[k][1], w.routes[k][2]) if k < n else (w.out, w.inp)
        c.ensure("recorded amounts", c.And(close(c, g("amt1"), out, scale=out), close(c, g("amt2"), inp, scale=inp)))
        c.ensure("recorded tokens", g("tkn1") == w.tkn and g("tkn2") == w.tkno and g("pair") == "ETHUSDC")
        c.ensure("recorded as executed or not", same(c, g("exec"), executed))
        c.ensure("recorded limit result", g("limitfail") is limitfail if limitfail is None else same(c, g("limitfail"), limitfail))
        c.ensure("recorded price is the average price of the trade", close(c, g("price"), w.price(), scale=w.price()))
        c.ensure("recorded route", g("aggr") == (k == n) and g("nroutes") == (n if k == n else 1) and (k == n or g("routeix") == w.routes[k][0]))
    c.ensure("one more trade", c.eq(c.attr(sim, "numtrades"), num + 1))


def mm_variant(c):
    mm = c.choice("mm", ["exact", "fast", "alpha"])
    by_target = c.bool("by_target")
    return mm, by_target, mm == "fast" and by_target


@contract("S01", functions=TRADE, samples=400, budget=60, max_paths=3000, kind="proved-bounded", weight=6, split=40)
def executed_trade_moves_tokens_once(c):
    """whatever the router returns, an executed trade takes each route's amount off its order, puts the payment on the linked order,
    leaves everything else alone and records exactly that"""
    mm, bt, ft = mm_variant(c)
    n = c.choice("n", [1, 2])
    w = World(c, mm)
    w.stub(n, ft)
    amt, res = do_trade(c, w, bt)
    c.ensure("succeeds", c.item(res, "success") is True)
    c.ensure("the router is asked once for the amount", len(w.given) == 1 and close(c, w.given[0], -1 * amt if bt else amt, scale=amt))
    c.ensure("only live orders of the pair selling the token are offered", w.offered == w.usable)
    moved(c, w)
    records(c, w, w.sim, True, None, n, 0)


@contract("S01", functions=TRADE, samples=300, budget=60, max_paths=6000, weight=5, split=40, kind="proved-bounded")
def positions_restrict_the_trade(c):
    """only the positions asked for are offered to the router, whichever way the trade is expressed"""
    mm, bt, ft = mm_variant(c)
    w = World(c, mm)
    w.stub(1, ft)
    use = [[2], [4, 2], [0, 1, 2, 3], [5, 6, 7, 0], [3], []][c.choice("use", [0, 1, 2, 3, 4, 5])]
    amt = c.real("amt", gt=0, rng=(1e-2, 1e3))
    neg = c.bool("negative")
    want = [i for i in w.usable if i in use]
    if not want:
        w.stub(1, ft, fail=True)
    if bt != neg:
        res = c.meth(w.sim, "amm_sells", w.tkn if bt else w.tkno, -1 * amt if neg else amt, use_positions=list(use))
    else:
        res = c.meth(w.sim, "amm_buys", w.tkno if not bt else w.tkn, -1 * amt if neg else amt, use_positions=list(use))
    c.ensure("asked for the right amount", close(c, w.given[0], -1 * amt if bt else amt, scale=amt))
    c.ensure("only the positions asked for", w.offered == want)
    if want:
        moved(c, w)


@contract("S01", functions=TRADE, samples=400, budget=90, kind="proved-bounded")
def unexecuted_trade_changes_nothing(c):
    """a trade that is only quoted, or whose limit is not met, is recorded but moves nothing"""
    mm, bt, ft = mm_variant(c)
    n = c.choice("n", [1, 2])
    w = World(c, mm)
    w.stub(n, ft)
    amt, res = do_trade(c, w, bt, execute=False)
    c.ensure("succeeds", c.item(res, "success") is True)
    c.ensure("no order changed", c.unchanged(w.before, c.snapshot(*w.o.values())))
    records(c, w, w.sim, False, None, n, 0)


@contract("S01", functions=TRADE, samples=800, budget=120, kind="proved-bounded")
def limit_decides_execution(c):
    """a trade with a limit executes if its average price is the limit or better for the trader, and moves nothing if it is worse;
    a limit amount is the limit price it implies"""
    mm, bt, ft = mm_variant(c)
    w = World(c, mm, small=True)
    w.stub(1, ft)
    amt = c.real("amt", gt=0, rng=(1e-2, 1e3))
    ref, f = c.real("ref", gt=0, rng=(1e-5, 1e5)), 1
    kw = {}
    if c.bool("limit_amt"):
        kw["limit_amt"] = ref
        # amt / limit_amt is tkn out per tkno in (by target) or the reverse
        out_per_in = c.div(amt, ref) if bt else c.div(ref, amt)
    else:
        kw["limit_price"] = ref
        out_per_in = ref if w.tkn == "USDC" else c.div(1, ref)
    if bt:
        res = c.meth(w.sim, "amm_sells", w.tkn, amt, **kw)
    else:
        res = c.meth(w.sim, "amm_buys", w.tkno, amt, **kw)
    c.ensure("succeeds", c.item(res, "success") is True)
    # the trader obtains `out` for `inp`
    lim = out_per_in if w.tkn == "USDC" else c.div(1, out_per_in)
    p = w.price()
    good = c.lt(lim, p * (1 - 0 if c.symbolic else 1 - 1e-9) - EPS, tol=1e-15) if w.tkn == "USDC" else c.lt(p, lim * (1 if c.symbolic else 1 - 1e-9) - EPS, tol=1e-15)
    bad = c.lt(p, lim * (1 if c.symbolic else 1 - 1e-9) - EPS, tol=1e-15) if w.tkn == "USDC" else c.lt(lim, p * (1 if c.symbolic else 1 - 1e-9) - EPS, tol=1e-15)
    tr = c.attr(w.sim, "trades")
    done = c.item(c.item(c.item(tr, "0"), "exec"), 0)
    failed = c.item(c.item(c.item(tr, "0"), "limitfail"), 0)
    c.ensure("limit result recorded", c.Or(c.And(done, c.Not(failed)), c.And(c.Not(done), failed)))
    c.ensure("at the limit or better it executes", c.Implies(good, done))
    c.ensure("worse than the limit it does not", c.Implies(bad, c.Not(done)))
    if c.split(done):
        moved(c, w)
        records(c, w, w.sim, True, False, 1, 0)
    else:
        c.ensure("no order changed", c.unchanged(w.before, c.snapshot(*w.o.values())))
        records(c, w, w.sim, False, True, 1, 0)


@contract("S01", functions=TRADE, samples=300, budget=60, kind="proved-bounded")
def failed_trade_changes_nothing(c):
    """when the router finds no route, the token or pair has no liquidity, or both limits are given: an error, and nothing changes"""
    mm, bt, ft = mm_variant(c)
    strict = c.bool("raiseonerror")
    w = World(c, mm, raiseonerror=strict, small=True)
    why = c.choice("why", ["router", "both limits", "token", "pair", "outside"])
    w.stub(1, ft, fail=why == "router")
    amt = c.real("amt", gt=0, rng=(1e-2, 1e3))
    kw, tkn = {}, w.tkn if bt else w.tkno
    if why == "both limits":
        kw = {"limit_price": 1, "limit_amt": 1}
    elif why == "token":
        tkn = "BNT"
    elif why == "pair":
        kw = {"pair": "ETH/BNT"}
    elif why == "outside":
        kw = {"inpair": False}
    o = c.try_meth(w.sim, "amm_sells" if bt else "amm_buys", tkn, amt, **kw)
    if strict:
        c.ensure("raises", not o.ok)
    else:
        c.ensure("reports failure", o.ok and c.item(o.value, "success") is False)
    c.ensure("no order changed", c.unchanged(w.before, c.snapshot(*w.o.values())))
    c.ensure("no trade recorded", len(c.dict_items(c.attr(w.sim, "trades"))) == 0 and c.attr(w.sim, "numtrades") == 0)


# ---------------------------------------------------------------- S02: the life of orders

ADD = [SIM + ".add_strategy", SIM + ".add_order", SIM + "._add_order_sell_tkn", "carbon.order:Order.__post_init__"]
FIELDS = ("y", "y_int", "p_low", "p_high", "tkn", "id", "linked_to_id", "disabled", "pair_name", "carbon_id", "B", "S")


def prices(c, pre, tkn):
    """(start, end) in the convention of USDC per ETH, and the curve's own (low, high) prices, tkn as numeraire"""
    b = c.real(pre + "b", gt=0, rng=(1e-2, 1e1))
    w = b + c.real(pre + "w", lo=0, rng=(1e-2, 1e1))
    lo, hi = b * b, w * w
    if tkn == "USDC":
        return hi, lo, lo, hi, b, w
    return c.div(1, hi), c.div(1, lo), lo, hi, b, w


def check_order(c, sim, oid, lid, tkn, lo, hi, y, how, extra, cid=""):
    o = c.item(c.attr(sim, "orders"), oid)
    g = lambda f: c.attr(o, f)
    c.ensure("id and link", g("id") == oid and g("linked_to_id") == lid)
    c.ensure("token and pair", c.is_str_eq(g("tkn"), tkn) and c.is_str_eq(g("pair_name"), "ETHUSDC"))
    c.ensure("carbon id", c.is_str_eq(g("carbon_id"), cid))
    c.ensure("liquidity", c.eq(g("y"), y))
    c.ensure("price range", c.And(c.eq(g("p_low"), lo), c.eq(g("p_high"), hi)))
    c.ensure("enabled", c.Not(g("disabled")))
    if how == "none":
        c.ensure("capacity is the liquidity", c.eq(g("y_int"), y))
    elif how == "y_int":
        c.ensure("capacity as given", c.eq(g("y_int"), extra))
    else:
        # marginal price sq^2: y / y_int = (sq - B) / S
        c.ensure("capacity from the marginal price", c.eq(c.flt(g("y_int")) * extra, y))
    return o


def leg(c, pre, tkn, y, how):
    """the arguments of one leg: (start, end, marginal, y_int) in pair convention"""
    start, end, lo, hi, b, w = prices(c, pre, tkn)
    marg = yint = extra = None
    if how == "y_int":
        yint = extra = y * (1 + c.real(pre + "more", lo=0, hi=10))
    elif how == "marginal":
        c.assume(w > b)
        m = c.real(pre + "m", gt=0, hi=1, rng=(0.05, 1))
        sq = b + (w - b) * m
        marg, extra = (sq * sq if tkn == "USDC" else c.div(1, sq * sq)), m
    return start, end, lo, hi, marg, yint, extra


def seed_orders(c, sim):
    """orders already in the simulator, made through its interface"""
    r = c.meth(sim, "add_strategy", "ETH", 10, 2000, 3000, 500, 1500, 1000)
    c.ensure("seed strategy accepted", c.item(r, "success") is True)
    return [c.item(c.attr(sim, "orders"), i) for i in (0, 1)]


def ids(c, sim):
    return [k for k, _ in c.dict_items(c.attr(sim, "orders"))]


@contract("S02", functions=ADD, samples=300, budget=120)
def strategy_becomes_two_linked_orders(c):
    """adding a strategy adds exactly two orders with fresh ids, linked to each other, with the prices, amounts and capacities given; the others are unchanged"""
    sim = new_sim(c, "exact", raiseonerror=True)
    old = seed_orders(c, sim)
    before = c.snapshot(*old)
    tkn = c.choice("tkn", ["ETH", "USDC"])
    tkno = "USDC" if tkn == "ETH" else "ETH"
    how = c.choice("how", ["none", "y_int", "marginal"])
    ys, yb = c.real("ys", gt=0, rng=(1e-2, 1e5)), c.real("yb", gt=0, rng=(1e-2, 1e5))
    s0, s1, slo, shi, sm, sy, sx = leg(c, "s", tkn, ys, how)
    b0, b1, blo, bhi, bm, by, bx = leg(c, "b", tkno, yb, how)
    if c.bool("swapped"):
        s0, s1, b0, b1 = s1, s0, b1, b0
    cid = c.choice("cid", [None, "x7"])
    kw = {} if cid is None else {"carbon_id": cid}
    r = c.meth(sim, "add_strategy", tkn, ys, s0, s1, yb, b0, b1, psell_marginal=sm, pbuy_marginal=bm, y_int_sell=sy, y_int_buy=by, **kw)
    c.ensure("success", c.item(r, "success") is True)
    c.ensure("two new ids", ids(c, sim) == [0, 1, 2, 3])
    os = check_order(c, sim, 2, 3, tkn, slo, shi, ys, how, sx, cid or "")
    ob = check_order(c, sim, 3, 2, tkno, blo, bhi, yb, how, bx, cid or "")
    c.ensure("other orders unchanged", c.unchanged(before, c.snapshot(*old)))
    uis = c.item(r, "orderuis")
    c.ensure("curves reported for both", [k for k, _ in c.dict_items(uis)] == [2, 3])
    us, ub = c.item(uis, 2), c.item(uis, 3)
    c.ensure("reported curves linked to each other", c.And(c.same(c.attr(us, "linked"), ub), c.same(c.attr(ub, "linked"), us)))
    for u, o, lo, hi, i, t in ((us, os, slo, shi, 2, tkn), (ub, ob, blo, bhi, 3, tkno)):
        p_s, p_e = (hi, lo) if t == "USDC" else (c.div(1, hi), c.div(1, lo))
        c.ensure("reported start and end price", c.And(c.eq(c.attr(u, "pa"), p_s), c.eq(c.attr(u, "pb"), p_e)))
        c.ensure("reported liquidity and capacity", c.And(c.eq(c.attr(u, "y"), c.flt(c.attr(o, "y"))), c.eq(c.attr(u, "yint"), c.flt(c.attr(o, "y_int")))))
        c.ensure("reported id", c.attr(u, "id") == i)


@contract("S02", functions=ADD, samples=300, budget=90)
def single_order_and_one_sided_strategies(c):
    """a single order is a strategy whose other side is empty and disabled (price zero), and so is a leg without prices"""
    sim = new_sim(c, "exact", raiseonerror=True)
    tkn = c.choice("tkn", ["ETH", "USDC"])
    tkno = "USDC" if tkn == "ETH" else "ETH"
    how = c.choice("how", ["none", "y_int", "marginal"])
    y = c.real("y", gt=0, rng=(1e-2, 1e5))
    s0, s1, lo, hi, m, yi, x = leg(c, "s", tkn, y, how)
    form = c.choice("form", ["order", "sell", "buy"])
    if form == "order":
        r = c.meth(sim, "add_order", tkn, y, s0, s1, p_marginal=m, y_int=yi)
    elif form == "sell":
        r = c.meth(sim, "add_strategy", tkn, y, s0, s1, psell_marginal=m, y_int_sell=yi)
    else:
        r = c.meth(sim, "add_strategy", tkno, amt_buy=y, pbuy_start=s0, pbuy_end=s1, pbuy_marginal=m, y_int_buy=yi)
    c.ensure("success", c.item(r, "success") is True)
    c.ensure("two orders", ids(c, sim) == [0, 1])
    a, b = (1, 0) if form == "buy" else (0, 1)
    check_order(c, sim, a, b, tkn, lo, hi, y, how, x)
    o = c.item(c.attr(sim, "orders"), b)
    c.ensure("other side linked, empty and disabled", c.And(c.attr(o, "id") == b and c.attr(o, "linked_to_id") == a and c.is_str_eq(c.attr(o, "tkn"), tkno),
             c.attr(o, "disabled"), c.eq(c.attr(o, "y"), 0), c.eq(c.attr(o, "p_low"), 0), c.eq(c.attr(o, "p_high"), 0)))


@contract("S02", functions=ADD, samples=300, budget=90)
def refused_strategy_leaves_no_trace(c):
    """a strategy that cannot be added is refused as a whole: no order appears and none changes"""
    strict = c.bool("raiseonerror")
    sim = new_sim(c, "exact", raiseonerror=strict)
    old = seed_orders(c, sim)
    before = c.snapshot(*old)
    tkn = c.choice("tkn", ["ETH", "USDC"])
    y = c.real("y", gt=0, rng=(1e-2, 1e5))
    p, q = c.real("p", gt=0, rng=(1e-3, 1e3)), c.real("q", gt=0, rng=(1e-3, 1e3))
    d = c.real("d", gt=0, lt=1, rng=(0.01, 0.99))
    why = c.choice("why", ["token", "capacity", "both", "half"])
    good = dict(amt_sell=y, psell_start=p, psell_end=q, amt_buy=y, pbuy_start=p, pbuy_end=q)
    side = c.choice("side", ["sell", "buy"])
    t = tkn
    if why == "token":
        t = "BNT"
    elif why == "capacity":
        good["y_int_" + side] = y * d
    elif why == "both":
        good["y_int_" + side] = y
        good[f"p{side}_marginal"] = p
    else:
        good[f"p{side}_{c.choice('end', ['start', 'end'])}"] = None
    r = c.try_meth(sim, "add_strategy", t, pair="ETH/USDC" if why == "token" else None, **good)
    if strict:
        c.ensure("raises", c.Not(r.ok))
    else:
        c.ensure("reports failure", r.ok and c.item(r.value, "success") is False)
    c.ensure("no order appears", ids(c, sim) == [0, 1])
    c.ensure("none changes", c.unchanged(before, c.snapshot(*old)))
    c.ensure("still there", c.And(*[c.same(c.item(c.attr(sim, "orders"), i), old[i]) for i in (0, 1)]))


@contract("S02", functions=[SIM + ".delete_order"], samples=300, budget=60)
def delete_removes_the_strategy_and_nothing_else(c):
    """deleting an order removes it and the order linked to it, whichever of the two is named; unknown ids remove nothing"""
    mm = "exact"
    w = World(c, mm)
    i = c.choice("id", list(range(9)))
    r = c.meth(w.sim, "delete_order", i)
    gone = {0: [0, 1], 1: [0, 1], 2: [2, 3], 3: [2, 3], 8: []}.get(i, [i])
    left = [k for k in w.o if k not in gone]
    c.ensure("the order and its link are gone, the others stay", ids(c, w.sim) == left)
    c.ensure("reported", sorted(c.items(r)) == gone)
    c.ensure("none changed", c.unchanged(w.before, c.snapshot(*w.o.values())))
    for k in left:
        o = c.item(c.attr(w.sim, "orders"), k)
        c.ensure("same object", c.same(o, w.o[k]))
        c.ensure("links intact", c.attr(o, "linked_to_id") in left)


@contract("S02", functions=[SIM + ".state", "carbon.carbon_order_ui:CarbonOrderUI.from_order"], samples=200, budget=90)
def state_reports_every_order(c):
    """the state lists one curve per order (of the pair asked for), with the order's parameters and links, and changes nothing"""
    w = World(c, "exact")
    n = c.choice("pair", [0, 1, 2, 3])
    r = c.meth(w.sim, "state", [None, "ETHUSDC", "BNTUSDC", c.lift(["ETHUSDC", "BNTUSDC"])][n])
    want = [k for k in w.o if n in (0, 3) or (k == 7) == (n == 2)]
    uis = c.item(r, "orderuis")
    c.ensure("one curve per order", [k for k, _ in c.dict_items(uis)] == want)
    for k in want:
        u, o = c.item(uis, k), w.o[k]
        for f, g in (("B", "B"), ("S", "S"), ("y", "y"), ("yint", "y_int")):
            c.ensure("same " + f, c.eq(c.attr(u, f), c.flt(c.attr(o, g))))
        c.ensure("same id and token", c.attr(u, "id") == k and c.is_str_eq(c.attr(u, "tkn"), c.attr(o, "tkn")))
        c.ensure("linked as the orders are", c.same(c.attr(u, "linked"), c.item(uis, c.attr(o, "linked_to_id"))))
    c.ensure("nothing changed", c.unchanged(w.before, c.snapshot(*w.o.values())))
    c.ensure("orders kept", ids(c, w.sim) == list(w.o))


@contract("S02", functions=[SIM + ".add_fromsdk", SIM + ".add_strategy", "carbon.carbon_order_ui:CarbonOrderUI.from_SDK"], samples=200, budget=120)
def sdk_strategy_is_added_as_given(c):
    """a strategy from the SDK becomes two linked orders with its budgets, fill levels and prices"""
    sim = new_sim(c, "exact", raiseonerror=True)
    w = [c.real(f"w{i}", gt=0, rng=(1e-2, 1e1)) for i in range(4)]
    bl = w[0]
    bh = bl + w[1]
    sl = bh + w[2]
    sh = sl + w[3]
    bb, sb = c.real("bb", gt=0, rng=(1, 1e5)), c.real("sb", gt=0, rng=(1, 1e5))
    y0, z0 = c.int("y0", 1, rng=(1, 10 ** 6)), c.int("z0", 1, rng=(1, 10 ** 6))
    y1, z1 = c.int("y1", 1, rng=(1, 10 ** 6)), c.int("z1", 1, rng=(1, 10 ** 6))
    c.assume(c.And(y0 <= z0, y1 <= z1))
    swap = c.bool("swap")
    b, q = "0xBASE", "0xQUOTE"
    enc = {"token0": q if swap else b, "token1": b if swap else q, "order0": {"y": y0, "z": z0}, "order1": {"y": y1, "z": z1}}
    s = {"id": 5, "baseToken": b, "quoteToken": q, "buyPriceLow": bl * bl, "buyPriceHigh": bh * bh, "buyBudget": bb, "sellPriceLow": sl * sl,
         "sellPriceHigh": sh * sh, "sellBudget": sb, "encoded": enc}
    r = c.meth(sim, "add_fromsdk", c.lift(s))
    c.ensure("success", c.item(r, "success") is True)
    c.ensure("two orders", ids(c, sim) == [0, 1])
    os, ob = [c.item(c.attr(sim, "orders"), i) for i in (0, 1)]
    g = c.attr
    c.ensure("linked", g(os, "linked_to_id") == 1 and g(ob, "linked_to_id") == 0)
    c.ensure("tokens", c.is_str_eq(g(os, "tkn"), "TKNB") and c.is_str_eq(g(ob, "tkn"), "TKNQ"))
    c.ensure("sell prices", c.And(c.eq(g(os, "p_low") * c.dec(sh * sh), 1), c.eq(g(os, "p_high") * c.dec(sl * sl), 1)))
    c.ensure("buy prices", c.And(c.eq(g(ob, "p_low"), bl * bl), c.eq(g(ob, "p_high"), bh * bh)))
    yb, zb, yq, zq = (y1, z1, y0, z0) if swap else (y0, z0, y1, z1)
    c.ensure("liquidity", c.And(c.eq(c.flt(g(os, "y")) * zb, sb * yb), c.eq(c.flt(g(ob, "y")) * zq, bb * yq)))
    c.ensure("capacity", c.And(c.eq(g(os, "y_int"), sb), c.eq(g(ob, "y_int"), bb)))
    c.ensure("carbon id", c.And(c.pyeq(g(os, "carbon_id"), 5), c.pyeq(g(ob, "carbon_id"), 5)))


# ---------------------------------------------------------------- S03: simulations end to end

def curve_in(c, out, y, B, S, z):
    t = S * y + B * z
    return c.div(out * z * z, t * (t - S * out))


@contract("S03", functions=TRADE + ["carbon.routers.fast_router:FastRouter.match", "carbon.routers.exact_base_router:ExactBase.match"], samples=400, budget=60,
          kind="proved-bounded", weight=6, split=40)
def trade_against_one_strategy(c):
    """with a single strategy and the real exact or fast router, a trade within its liquidity moves the amount asked for at the price of the curve"""
    # (the exact router's part is its own contract, R03)
    mm = "fast" if c.symbolic else c.choice("mm", ["exact", "fast", "alpha"])
    sim = new_sim(c, mm, raiseonerror=True)
    tkn = c.choice("tkn", ["ETH", "USDC"])
    tkno = "USDC" if tkn == "ETH" else "ETH"
    r, Q = c.real("r", gt=0, lt=1, rng=(0.5, 0.99)), c.real("Q", gt=0, rng=(0.3, 3))
    B = Q * r * r
    S = Q - B
    z = c.real("z", gt=0, rng=(1, 1e3))
    y = z * c.real("f", gt=0, hi=1, rng=(1e-2, 1))
    D = c.dec
    mk = lambda i, l, t, yy: c.call(ORDER, B=D(B), S=D(S), y_int=D(z), _y=D(yy), tkn=t, pair=c.attr(sim, "carbon_pair"), pair_name="ETHUSDC", id=i, linked_to_id=l)
    w = c.real("w", lo=0, rng=(1, 1e3))
    orders = {0: mk(0, 1, tkn, y), 1: mk(1, 0, tkno, w)}
    c.setattr(sim, "orders", dict(orders))
    out = y * c.real("share", gt=0, lt=1, rng=(1e-2, 0.99))
    inp = curve_in(c, out, y, B, S, z)
    # amounts are rounded to 12 decimals
    c.assume(c.And(out >= 1e-3, inp >= 1e-3))
    if c.bool("by_target"):
        res = c.meth(sim, "amm_sells", tkn, out)
    else:
        res = c.meth(sim, "amm_buys", tkno, inp)
    c.ensure("succeeds", c.item(res, "success") is True)
    tol = 1e-9
    near = lambda a, b: c.And(a - b <= tol, b - a <= tol) if c.symbolic else c.eq(a, b, scale=1)
    y1, w1 = c.flt(c.attr(orders[0], "y")), c.flt(c.attr(orders[1], "y"))
    c.ensure("sold at the curve price, exactly the amount", c.And(near(y1, y - out), near(w1, w + inp)))
    z1 = c.flt(c.attr(orders[1], "y_int"))
    c.ensure("capacity of the other side", c.And(c.Implies(w1 > z, c.eq(z1, w1)), c.Implies(w1 <= z, c.eq(z1, z))))


@contract("S03", functions=TRADE + [SIM + ".state", SIM + ".liquidity", SIM + ".add_strategy", SIM + ".add_order"], samples=250, kind="bounded", weight=3)
def simulations_conserve_tokens(c):
    """random simulations of up to three strategies and six trades with each router: every executed trade takes from the orders exactly what it
    records, at recorded prices within the ranges of the orders used; quotes, failures and other pairs move nothing; liquidity and the trade table agree"""
    mm = c.choice("mm", ["exact", "fast", "alpha"])
    sim = new_sim(c, mm)
    n = c.choice("n", [1, 2, 3])
    for i in range(n):
        m = c.real(f"m{i}", gt=0, rng=(500, 5000))
        w1, w2, w3, w4 = [1 + c.real(f"w{i}{j}", gt=0, rng=(1e-3, 1)) for j in range(4)]
        q = c.meth(sim, "add_strategy", "ETH", c.real(f"e{i}", gt=0, rng=(0.1, 100)), m * w1, m * w1 * w2, c.real(f"u{i}", gt=0, rng=(100, 1e5)), m / w3, m / w3 / w4)
        c.ensure("strategy added", q["success"])
    c.meth(sim, "add_order", "BNT", 100, 1, 2, pair="BNT/USDC")
    o = sim.orders
    get = lambda: {k: (float(v.y), float(v.y_int)) for k, v in o.items()}
    rows = 0
    for t in range(c.choice("trades", [1, 2, 4, 6])):
        before = get()
        tkn = c.choice(f"t{t}tkn", ["ETH", "USDC"])
        tkno = "USDC" if tkn == "ETH" else "ETH"
        avail = {k: v[0] for k, v in before.items() if o[k].tkn == tkn and o[k].pair_name == "ETHUSDC"}
        use = None
        if c.choice(f"t{t}use", [0, 0, 1]):
            use = [k for k in avail if c.choice(f"t{t}u{k}", [0, 1])]
            avail = {k: v for k, v in avail.items() if k in use}
        frac = c.real(f"t{t}f", gt=0, rng=(1e-3, 0.9))
        amt = frac * sum(avail.values())
        bt, ex, neg = c.bool(f"t{t}bt"), c.choice(f"t{t}ex", [True, True, False]), c.bool(f"t{t}neg")
        if not bt:
            # about that much, in the other token
            mid = max([float(o[k].p_high) for k in avail] or [1])
            amt = amt / mid
        if amt <= 1e-6 or any(0 < v < 1e-6 for v in avail.values()):
            # (the routers work with 12 decimals: dust left by earlier rounding may be untradable)
            continue
        kw = dict(execute=ex, use_positions=use)
        if bt:
            res = sim.amm_buys(tkn, -amt, **kw) if neg else sim.amm_sells(tkn, amt, **kw)
        else:
            res = sim.amm_sells(tkno, -amt, **kw) if neg else sim.amm_buys(tkno, amt, **kw)
        after = get()
        if not res["success"]:
            c.ensure("failure moves nothing", before == after)
            c.ensure("an amount within the liquidity is not refused", False)
            continue
        df = res["trades"]
        legs = df[~df["aggr"].astype(bool)]
        agg = df[df["aggr"].astype(bool)].iloc[0]
        rows += len(df)
        c.ensure("routes are orders of the pair selling the token", all(k in avail for k in legs["routeix"]) and len(set(legs["routeix"])) == len(legs))
        s1, s2 = float(sum(legs["amt1"])), float(sum(legs["amt2"]))
        a1, a2 = float(agg["amt1"]), float(agg["amt2"])
        c.ensure("totals are the sums of the routes", abs(a1 - s1) <= 1e-8 * s1 + 1e-10 and abs(a2 - s2) <= 1e-8 * s2 + 1e-10)
        c.ensure("the amount asked for", abs((a1 if bt else a2) - amt) <= 1e-7 * amt + 1e-10)
        price = a2 / a1 if tkn == "ETH" else a1 / a2
        c.ensure("recorded price is the average price", abs(float(agg["price"]) - price) <= 1e-8 * price)
        exp = {k: list(v) for k, v in before.items()}
        for _, g in legs.iterrows():
            k = g["routeix"]
            x1, x2 = float(g["amt1"]), float(g["amt2"])
            if min(x1, x2) > 1e-5:
                # (amounts are rounded to 12 decimals)
                p = x1 / x2
                c.ensure("each route within the price range of its order", float(o[k].p_low) * (1 - 1e-6) <= p <= float(o[k].p_high) * (1 + 1e-6))
            exp[k][0] -= x1
            l = o[k].linked_to_id
            exp[l][0] += x2
            exp[l][1] = max(exp[l])
        if not ex:
            exp = before
        for k in after:
            c.ensure("orders change by what the trade records", all(abs(u - v) <= 1e-8 * abs(v) + 1e-9 for u, v in zip(after[k], exp[k])))
            c.ensure("liquidity within the capacity", -1e-9 <= after[k][0] <= after[k][1] * (1 + 1e-9))
        c.ensure("recorded as executed or quoted", all(bool(v) == ex for v in df["exec"]))
    liq = sim.liquidity()
    for pr, tk in (("ETHUSDC", "ETH"), ("ETHUSDC", "USDC"), ("BNTUSDC", "BNT"), ("BNTUSDC", "USDC")):
        tot = sum(float(v.y) for v in o.values() if v.pair_name == pr and v.tkn == tk)
        c.ensure("liquidity is the sum over the orders", abs(liq[pr][tk] - tot) <= 1e-9 * tot + 1e-12)
    st = sim.state()
    c.ensure("the trade table holds every record", len(st["trades"]) == rows)
    c.ensure("the order table holds every order", list(st["orders"]["id"]) == list(o))


@contract("S03", functions=TRADE + ["carbon.routers.alpha_router:AlphaRouter.match_by_target", "carbon.routers.alpha_router:AlphaRouter.match_by_src"], samples=400, kind="bounded", weight=4)
def trades_depend_on_the_orders_only(c):
    """a trade after others gives exactly what it gives in a new simulator with the same orders: nothing is remembered but the orders"""
    mm = c.choice("mm", ["alpha", "exact", "fast", "alpha", "alpha"])
    sim = new_sim(c, mm)
    n = 3
    for i in range(n):
        m = 2000 * (1 + c.real(f"m{i}", gt=0, rng=(1e-3, 0.5)))
        r = c.meth(sim, "add_strategy", "ETH", 10, m, m * 1.2, 20000, m * 0.9, m * 0.7)
        c.ensure("strategy added", r["success"])
    import itertools
    trades, sub = c.choice("trades", [2, 3, 4]), None
    subsets = [list(s) for k in range(1, n + 1) for s in itertools.combinations(range(n), k)]
    tkn, bt = c.choice("tkn", ["ETH", "USDC"]), c.bool("bt")
    for t in range(trades):
        if c.choice(f"t{t}other", [0, 0, 0, 1]):
            tkn, bt = c.choice(f"t{t}tkn", ["ETH", "USDC"]), c.bool(f"t{t}bt")
        tkno = "USDC" if tkn == "ETH" else "ETH"
        if sub and len(sub) < n and c.choice(f"t{t}swap", [True, True, False]):
            # as many positions as before, one of them another
            out = c.choice(f"t{t}out", sub[:])
            sub = sorted(set(sub) - {out} | {c.choice(f"t{t}in", [i for i in range(n) if i not in sub])})
        else:
            sub = subsets[c.choice(f"t{t}sub", list(range(len(subsets))))]
        use = [2 * i if tkn == "ETH" else 2 * i + 1 for i in sub]
        avail = sum(float(sim.orders[i].y) for i in use)
        amt = avail * c.real(f"t{t}f", gt=0, rng=(1e-2, 0.6))
        if not bt:
            amt = amt * 1500 if tkn == "ETH" else amt / 3500
        if amt <= 1e-6 or any(0 < sim.orders[i].y < 1e-6 for i in use):
            continue
        fresh = new_sim(c, mm)
        if mm == "alpha":
            fresh.matcher.exact_router = type(fresh.matcher.exact_router)()
        import copy
        fresh.orders = copy.deepcopy(sim.orders)
        go = lambda s: s.amm_sells(tkn, amt, use_positions=list(use)) if bt else s.amm_buys(tkno, amt, use_positions=list(use))
        a, b = go(sim), go(fresh)
        c.ensure("same outcome", a["success"] == b["success"])
        c.ensure("executed", a["success"])
        if not a["success"]:
            return
        for k in sim.orders:
            c.ensure("same orders afterwards", sim.orders[k].y == fresh.orders[k].y and sim.orders[k].y_int == fresh.orders[k].y_int)
        c.ensure("only the positions asked for", set(a["trades"]["routeix"][:-1]) <= set(use))
        for col in ("amt1", "amt2", "price", "routeix", "tkn1", "tkn2", "exec"):
            c.ensure("same records", list(map(str, a["trades"][col])) == list(map(str, b["trades"][col])))


@contract("S03", functions=[SIM + ".liquidity", SIM + ".state"], samples=60, kind="bounded")
def liquidity_adds_up_equal_orders(c):
    """liquidity is the sum over the orders also when several of them are alike"""
    sim = new_sim(c, "exact")
    a, b = c.real("a", gt=0, rng=(1, 1e3)), c.real("b", gt=0, rng=(1, 1e3))
    tot = {"ETH": 0.0, "USDC": 0.0}
    for i in range(c.choice("n", [1, 2, 3, 5])):
        e, u = c.choice(f"e{i}", [a, b, 0]), c.choice(f"u{i}", [a, b, 0])
        c.ensure("strategy added", c.meth(sim, "add_strategy", "ETH", e, 2000, 3000, u, 1500, 1000)["success"])
        tot["ETH"] += e
        tot["USDC"] += u
    liq = sim.liquidity()["ETHUSDC"]
    c.ensure("liquidity is the sum over the orders", all(abs(liq[k] - v) <= 1e-9 * v for k, v in tot.items()))
    df = sim.liquidity(format="asdf")
    c.ensure("as a table too", all(abs(float(df.loc[("ETHUSDC", k)]["y"]) - v) <= 1e-9 * v for k, v in tot.items()))
