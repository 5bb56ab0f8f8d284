"""Contracts for the fixed-point matching functions (benchmark/core/match/impl.py) : T04, T05."""
from pyvc.api import contract, fn_contract
from specs.trade import ONE, M128, M256, exact_src, exact_tgt, enc_order

MOD = "core.match.impl:"
TR = "core.trade.impl:"


# callers of the trade functions see: a function of the amount and the order, 128 bits, nothing for a negative amount
def _src_post(c, x, order, r):
    k = [c.item(order, n) for n in "yzAB"]
    return [("fits 128 bits", c.And(r >= 0, r <= M128)), ("a function of its arguments", c.eq(r, c.uf("trade_src", x, *k))),
            ("a negative amount buys nothing", c.Implies(x < 0, c.eq(r, 0)))]


def _tgt_post(c, x, order, r):
    k = [c.item(order, n) for n in "yzAB"]
    return [("fits 128 bits", c.And(r >= 0, r <= M128)), ("a function of its arguments", c.eq(r, c.uf("trade_tgt", x, *k)))]


fn_contract(TR + "tradeBySourceAmount", ["amount", "order"], "int", pre=lambda c, x, o: [], post=_src_post)
fn_contract(TR + "tradeByTargetAmount", ["amount", "order"], "int", pre=lambda c, x, o: [], post=_tgt_post)
TS = [TR + "tradeBySourceAmount", TR + "tradeByTargetAmount"]


def amt(c, name="amount"):
    return c.int(name, 0, rng=(0, 2 ** c.choice("asz", [10, 40, 64, 100, 127])) if not c.symbolic else None)


@contract("T04", functions=[TR + "tradeBySourceAmount", TR + "tradeFunc"], samples=1000, summaries=[TR + "decodeFloat"])
def negative_amount_buys_nothing(c):
    """the assumption the callers below rely on: a negative source amount yields 0 unless ... (proved of the real function)"""
    x = c.int("x", None, -1, rng=(-2 ** 64, -1))
    order = enc_order(c)
    c.assume(c.Or(c.item(order, "z") > 0, c.item(order, "y") > 0))
    r = c.call(TR + "tradeBySourceAmount", x, order)
    c.ensure("nothing", c.eq(r, 0))


@contract("T04", functions=[MOD + "rateBySourceAmount"], samples=2000, summaries=TS)
def quote_by_source(c):
    """a quote pays the computed trade for its input, and never more than the order's liquidity; untouched when the liquidity suffices"""
    a = amt(c)
    order = enc_order(c)
    y = c.item(order, "y")
    full = c.call(TR + "tradeBySourceAmount", a, order)
    k = [c.item(order, n) for n in "yzAB"]
    c.loop_invariant(lambda c, st: [(f"{v} trades {u}", c.eq(st.nums[v], c.uf("trade_src", st.nums[u], *k))) for u in st.nums for v in st.nums if u != v])
    q = c.call(MOD + "rateBySourceAmount", a, order)
    i, o = c.attr(q, "input"), c.attr(q, "output")
    c.ensure("integers", c.And(c.isint(i), c.isint(o)))
    c.ensure("output within liquidity", c.And(o <= y, o >= 0))
    c.ensure("output is the trade of the input", c.eq(o, c.call(TR + "tradeBySourceAmount", i, order)))
    c.ensure("whole amount used when liquidity suffices", c.Implies(full <= y, c.And(c.eq(i, a), c.eq(o, full))))
    if not c.symbolic:
        c.ensure("never more input than the amount", i <= a)
        c.ensure("input not negative", i >= 0)
        c.ensure("sold out: one more unit of input would exceed the liquidity or nothing is left to gain",
                 full <= y or i == a or o == y or c.call(TR + "tradeBySourceAmount", i + 1, order) >= y
                 or c.call(TR + "tradeByTargetAmount", y, order) <= i)


@contract("T04", functions=[MOD + "rateByTargetAmount"], samples=1500, summaries=TS)
def quote_by_target(c):
    """a quote by target asks for the computed cost of the target or of the whole liquidity, whichever is smaller"""
    a = amt(c)
    order = enc_order(c)
    y = c.item(order, "y")
    q = c.call(MOD + "rateByTargetAmount", a, order)
    i, o = c.attr(q, "input"), c.attr(q, "output")
    c.ensure("target limited by liquidity", c.eq(i, c.If(a <= y, a, y)))
    c.ensure("cost is the trade's", c.eq(o, c.call(TR + "tradeByTargetAmount", i, order)))


@contract("T04", functions=[TR + "tradeBySourceAmountFunc", TR + "tradeByTargetAmountFunc"], samples=1, budget=60)
def liquidity_costs_no_more_than_offered(c):
    """exact arithmetic behind quote_by_source: if an amount buys more than y then the rounded-up cost of y is at most that amount"""
    if not c.symbolic:
        c.ensure("cost of y <= amount", True)
        return
    x, y, z, A, B = [c.int(n, 0) for n in ("x", "y", "z", "A", "B")]
    r, i = c.int("r", 0), c.int("i", 0)
    c.assume(c.And(z > 0, y <= z, A > 0, r > y))
    n, d = exact_src(c, x, y, z, A, B)
    c.assume(r * d <= n)                              # contract of trading by source
    n2, d2 = exact_tgt(c, y, y, z, A, B)
    c.assume(d2 > 0)
    c.assume((i - 1) * d2 < n2)                       # contract of trading by target (no intermediate scaled)
    t = y * A + z * B
    # x (t^2 - y A t) >= y z^2 ONE^2  <=  x t^2 > y (A x t + z^2 ONE^2)
    c.assume(c.eq(d2, t * (t - y * A)))
    c.ensure("step", x * d2 > n2)
    c.ensure("cost of y <= amount", i <= x)


RATE = MOD + "Rate"
QUOTE = MOD + "Quote"


def rate(c, pre, hi=60):
    i = c.int(pre + "in", 0, rng=(0, 2 ** hi))
    o = c.int(pre + "out", 0, rng=(0, 2 ** hi))
    return c.call(RATE, i, o)


@contract("T05", functions=[MOD + "sortByMinRate", MOD + "sortByMaxRate"], samples=1500, budget=60)
def rate_order(c):
    """quotes are ordered by out/in, then by size, the best one first; the order is antisymmetric, transitive, and the two directions are mirror images"""
    small = 3 if not c.symbolic and c.bool("small") else 40
    qs = []
    for k in range(3):
        i = c.int(f"i{k}", 0, rng=(0, 2 ** small))
        o = c.int(f"o{k}", 0, rng=(0, 2 ** small))
        c.assume(c.Implies(c.eq(i, 0), c.eq(o, 0)))
        qs.append((i, o, c.call(QUOTE, k, c.call(RATE, i, o))))
    (i0, o0, a), (i1, o1, b), (i2, o2, d) = qs
    ab, ba, bd, ad = [c.call(MOD + "sortByMinRate", u, v) for u, v in ((a, b), (b, a), (b, d), (a, d))]
    c.ensure("antisymmetric", c.eq(ab, 0 - ba))
    c.ensure("better rate comes first", c.Implies(o0 * i1 > o1 * i0, ab < 0))
    c.ensure("same rate: larger output comes first", c.Implies(c.And(c.eq(o0 * i1, o1 * i0), o0 > o1), ab < 0))
    c.ensure("equal only if rate and output are equal", c.Implies(c.eq(ab, 0), c.And(c.eq(o0 * i1, o1 * i0), c.eq(o0, o1))))
    c.ensure("mirror", c.eq(c.call(MOD + "sortByMaxRate", a, b), ba))
    c.ensure("transitive", c.Implies(c.And(ab >= 0, bd >= 0), ad >= 0))


# matchFast over any trade function that never uses more than it is given, any filter, any number of quotes
def fast_inv(c, st):
    out = []
    for nm, g in st.lists.items():
        if "input" in g.sums:
            for v in st.nums:
                out.append((f"sum({nm})+{v} constant", c.eq(g.sums["input"] + st.nums[v], st.nums0[v])))
                out.append((f"sum({nm})+{v} <= entry", c.le(g.sums["input"] + st.nums[v], st.nums0[v])))
            out.append((f"sum({nm}) >= 0", g.sums["input"] >= 0))
            for v in st.nums:
                out.append((f"sum({nm}) <= entry {v}", g.sums["input"] <= st.nums0[v]))
    return out


@contract("T05", functions=[MOD + "matchFast"], samples=1500, budget=60)
def fast_never_overspends(c):
    """any number of quotes, any filter, any trade function that respects its amount: the inputs of the actions never add up to more than
    the amount, none is negative or rejected by the filter, and each is one of the quotes or the trade of what was left"""
    hi = 2 ** 40
    amount = c.int("amount", 0, rng=(0, hi))
    seen = []
    cnt = [0]

    def filter_(r):
        cnt[0] += 1
        ok = c.choice("filter%d" % (cnt[0] % 20), [True, True, True, False])
        if ok:
            seen.append(r)
        return ok

    def trade(a, order):
        cnt[0] += 1
        i = c.int("ti%d" % cnt[0], 0, rng=(0, hi))
        o = c.int("to%d" % cnt[0], 0, rng=(0, hi))
        if not c.symbolic:
            i = min(i, a)
        c.assume(i <= a)
        return c.call(RATE, i, o)
    made = {}

    def make(pre):
        q = c.call(QUOTE, 0, rate(c, pre, 38))
        return q
    quotes = c.symlist("quotes", make)
    orders = c.lift({0: c.lift({"y": 1})})
    c.loop_invariant(fast_inv, fields=("input",))

    def on_append(lst, x):
        c.ensure("action accepted by the filter", any(c.same(c.attr(x, "input"), c.attr(r, "input")) and c.same(c.attr(x, "output"), c.attr(r, "output")) for r in seen))
        c.ensure("action input within the amount", c.And(c.attr(x, "input") >= 0, c.attr(x, "input") <= amount))
    c.on_append(on_append)
    acts = c.call(MOD + "matchFast", amount, orders, quotes, c.func(filter_, "filter"), c.func(trade, "trade"))
    c.ensure("inputs add up to at most the amount", c.And(c.total(acts, "input") <= amount, c.total(acts, "input") >= 0))


def fast_all_inv(c, st):
    out = fast_inv(c, st)
    for nm, g in st.lists.items():
        out.append((f"len({nm}) == index", c.eq(g.length, st.index)))
    return out


@contract("T05", functions=[MOD + "matchFast"], samples=1500, budget=60)
def fast_uses_the_whole_amount(c):
    """no filter, a trade function that can use what is left: the whole amount is matched unless every quote was used up completely"""
    hi = 2 ** 40
    amount = c.int("amount", 0, rng=(0, hi))
    cnt = [0]

    def trade(a, order):
        cnt[0] += 1
        o = c.int("to%d" % cnt[0], 0, rng=(0, hi))
        return c.call(RATE, a, o)
    quotes = c.symlist("quotes", lambda pre: c.call(QUOTE, 0, rate(c, pre, 38)))
    n = c.length(quotes)
    orders = c.lift({0: c.lift({"y": 1})})
    c.loop_invariant(fast_all_inv, fields=("input",))
    acts = c.call(MOD + "matchFast", amount, orders, quotes, c.func(lambda r: True, "filter"), c.func(trade, "trade"))
    c.ensure("whole amount or every quote", c.Or(c.eq(c.total(acts, "input"), amount), c.eq(c.length(acts), n)))


@contract("T05", functions=[MOD + "getLimit", MOD + "equalizeByTargetAmount", MOD + "getParams"], samples=1500, summaries=[TR + "decodeFloat"], budget=40)
def equalizing(c):
    """the amount that brings an order down to a rate leaves it at that rate (to one unit), all of it for a limit below, none at its own rate"""
    order = enc_order(c)
    y, z = c.item(order, "y"), c.item(order, "z")
    A, B = c.call(TR + "decodeFloat", c.item(order, "A")), c.call(TR + "decodeFloat", c.item(order, "B"))
    lim = c.call(MOD + "getLimit", order)
    c.ensure("limit", c.Implies(z > 0, c.And(lim * z <= y * A + z * B, (lim + 1) * z > y * A + z * B)))
    c.ensure("no limit for an order without capacity", c.Implies(c.eq(z, 0), c.eq(lim, 0)))
    g = c.int("g", 0, rng=(0, 2 ** 60))
    x = c.call(MOD + "equalizeByTargetAmount", order, g)
    if c.split(c.eq(A, 0)):
        c.ensure("constant rate: everything", c.eq(x, y))
    else:
        # after giving x: sqrt-rate * z = (y-x) A + z B
        c.ensure("not a negative amount down to its own limit", c.Implies(g <= lim, x >= 0))
        c.ensure("not below the limit", c.Or(x <= 0, (y - x) * A + z * B >= z * g))
        c.ensure("one more unit would be below", c.Implies(g <= lim, (y - x - 1) * A + z * B < z * g))
        c.ensure("none at the order's own limit", c.Implies(c.And(z > 0, c.eq(g, lim)), x * A < z + A))


@contract("T05", functions=[MOD + n for n in ("matchBySourceAmount", "matchByTargetAmount", "matchBy", "matchFast", "matchBest", "sortedQuotes", "execute",
                                               "rateBySourceAmount", "rateByTargetAmount", "equalizeBySourceAmount", "equalizeByTargetAmount", "getLimit")],
          kind="bounded", samples=2500, weight=2)
def matching_is_sound(c):
    """fast and best matching of up to 6 encoded orders: spends at most the amount, gives at most each order's liquidity, each order once,
    every action is the order's own trade, no action is refused by the filter, the fast match goes through the orders from the best rate down"""
    from decimal import Decimal
    n = c.choice("n", [1, 2, 3, 4, 6])
    src = c.bool("by_source")
    orders = []
    scale = 10 ** c.choice("scale", [2, 6, 12, 18, 24])
    for k in range(n):
        liq = int(c.real(f"liq{k}", gt=0, rng=(1e-1, 1e3)) * scale)
        lo = c.real(f"lo{k}", gt=0, rng=(1e-2, 1e2))
        w = c.choice(f"w{k}", [1, 1, 1.0001, 1.2, 3, 10])
        h = lo * w
        m = lo + (h - lo) * c.real(f"m{k}", gt=0, hi=1, rng=(1e-2, 1))
        if k and c.choice(f"like{k}", [0, 0, 0, 1]):
            lo, h, m = orders[0]["lowestRate"], orders[0]["highestRate"], orders[0]["marginalRate"]
        orders.append({"liquidity": Decimal(liq), "lowestRate": Decimal(lo), "highestRate": Decimal(h), "marginalRate": Decimal(m)})
    a = int(c.real("amount", gt=0, rng=(1e-2, 1e4)) * scale)
    try:
        enc = {k: c._f(TR + "encodeOrder")(o) for k, o in enumerate(orders)}
    except Exception:
        c.assume(False)
    res = c.call(MOD + "execute", "matchBySourceAmount" if src else "matchByTargetAmount", a, orders)
    one = c._f(TR + ("tradeBySourceAmount" if src else "tradeByTargetAmount"))
    rt = c._f(MOD + ("rateBySourceAmount" if src else "rateByTargetAmount"))
    cap = 0
    for o in enc.values():
        cap += rt(a, o).input
    # known finding (best_overspends below): best matching sometimes trades a negative amount, the rest is then overspent;
    # books on which it does are left to that finding, and so is the comparison with fast matching where limits and quotes rank differently
    quotes = c._f(MOD + "sortedQuotes")(a, enc, rt, c._f(MOD + ("sortByMinRate" if src else "sortByMaxRate")))
    lims = [c._f(MOD + "getLimit")(enc[q.id]) for q in quotes]
    ranked = all(u >= v for u, v in zip(lims, lims[1:]))
    negative = []
    eq, eqt = c._f(MOD + ("equalizeBySourceAmount" if src else "equalizeByTargetAmount")), c._f(MOD + "equalizeByTargetAmount")
    c._f(MOD + "matchBest")(a, enc, quotes, lambda r: True, lambda x, o: negative.append(x < 0) or rt(x, o),
                            lambda o, lim: negative.append(eqt(o, lim) < 0) or eq(o, lim))
    for typ in ("Fast",) if any(negative) else ("Fast", "Best"):
        acts = res[typ]
        ids = [x.id for x in acts]
        c.ensure(typ + ": each order at most once", len(set(ids)) == len(ids) and all(i in enc for i in ids))
        c.ensure(typ + ": every action moves something", all(x.input > 0 and x.output > 0 for x in acts))
        for x in acts:
            c.ensure(typ + ": action is the order's trade", x.output == one(x.input, enc[x.id]))
            c.ensure(typ + ": within liquidity", (x.output if src else x.input) <= enc[x.id]["y"])
        tot = sum(x.input for x in acts)
        c.ensure(typ + ": spends at most the amount", tot <= a)
        left = a - tot
        if src and typ == "Fast":
            full = {k: rt(a, e) for k, e in enc.items()}
            got = {x.id: x.input for x in acts}
            c.ensure("Fast: uses the amount unless sold out or the rest buys nothing",
                     left == 0 or any(one(left, e) == 0 for e in enc.values()) or all(got.get(k, 0) == full[k].input or full[k].output == 0 for k in enc))
        elif typ == "Fast":
            c.ensure(typ + ": reaches the target", tot == min(a, sum(e["y"] for e in enc.values())) or any(rt(a, e).output == 0 for e in enc.values()))
    f, b = res["Fast"], res["Best"]
    fi, fo, bi, bo = [sum(getattr(x, k) for x in l) for l in (f, b) for k in ("input", "output")]
    if fi == bi and ranked and not any(negative):
        rates = [o["highestRate"] for o in orders] + [1 / o["lowestRate"] for o in orders]
        # what one unit of rounding per order can be worth, and the resolution of the 48-bit limits on narrow orders
        unit = 2 * n * (1 + int(max(rates))) + fo // 10 ** 6
        c.ensure("best is no worse than fast, up to rounding", bo >= fo - unit if src else bo <= fo + unit)
    for x, y_ in zip(f, f[1:-1]):
        c.ensure("fast goes from the best rate down", (x.output * y_.input >= y_.output * x.input) == src or x.output * y_.input == y_.output * x.input)



@contract("T05", functions=[MOD + "matchBest"], kind="finding", samples=1)
def best_overspends(c):
    """three orders of the same price range whose limits differ by rounding: best matching of 8 units spends 1208"""
    from decimal import Decimal as D
    lo, hi, m = D("5.5394864212306"), D("6.647383705476719"), D("5.5610283489444035")
    orders = [{"liquidity": D(y), "lowestRate": lo, "highestRate": hi, "marginalRate": m} for y in (27, 6707, 14273)]
    res = c.call(MOD + "execute", "matchBySourceAmount", 8, orders)
    c.ensure("Best: spends at most the amount", sum(x.input for x in res["Best"]) <= 8)
