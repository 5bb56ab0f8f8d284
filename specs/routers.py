"""Contracts for the fast and the alpha router (carbon/routers/fast_router.py, alpha_router.py) : R04, R05."""
from pyvc.api import contract
from specs.order import order, router, ref_dx, ref_dy, FR, AR, X0

BR = "carbon.routers.base_router:"
EPS = 1e-11       # actions are rounded to 12 decimals


def near(c, a, b, n=1):
    if c.symbolic:
        return c.And(a - b <= n * EPS, b - a <= n * EPS)
    return c.eq(a, b, scale=1)


@contract("R04", functions=[FR + ".get_trade_amounts_by_source_amount", FR + ".get_trade_amounts_by_target_amount", FR + ".amt_by_src", FR + ".amt_by_target"],
          samples=600, budget=60)
def quote_is_limited_by_liquidity(c):
    """a quote by target gives the amount or all there is, at the cost of the curve; a quote by source gives what the amount buys or all there is,
    and asks for no more than the amount"""
    o, B, S, z, y = order(c)
    r = router(c, FR, [o])
    a = c.real("amount", lo=0, rng=(0, 1e5))
    if c.bool("by_target"):
        q = c.meth(r, "get_trade_amounts_by_target_amount", c.dec(a), 0)
        i, out = c.flt(c.attr(q, "input")), c.flt(c.attr(q, "output"))
        c.ensure("amount or all there is", c.eq(i, c.If(a <= y, a, y)))
        c.ensure("cost of the curve", c.eq(out, ref_dx(c, i, y, B, S, z)))
    else:
        q = c.meth(r, "get_trade_amounts_by_source_amount", c.dec(a), 0)
        i, out = c.flt(c.attr(q, "input")), c.flt(c.attr(q, "output"))
        full = ref_dy(c, a, y, B, S, z)
        c.ensure("what it buys or all there is", c.eq(out, c.If(full <= y, full, y)))
        c.ensure("no more than the amount", c.le(i, a, scale=a))
        c.ensure("the whole amount unless sold out", c.Implies(full <= y, c.eq(i, a)))
        c.ensure("cost of the curve", c.eq(i, ref_dx(c, out, y, B, S, z), scale=a))


@contract("R04", functions=[FR + ".cmp_min", FR + ".cmp_max"], samples=800, budget=60)
def quotes_are_ranked_by_rate(c):
    """the better rate (output per input; reversed by target) comes first, then the larger quote; the comparison is antisymmetric and transitive"""
    small = 2 if not c.symbolic and c.bool("small") else 1000
    r = c.call(FR)
    qs = []
    for k in range(3):
        if c.symbolic:
            i, o = c.real(f"i{k}", gt=0), c.real(f"o{k}", gt=0)
        else:
            i, o = c.int(f"i{k}", 1, rng=(1, small)), c.int(f"o{k}", 1, rng=(1, small))
        qs.append((i, o, c.call(BR + "Quote", k, c.call(BR + "Rate", c.dec(i), c.dec(o)))))
    (i0, o0, a), (i1, o1, b), (i2, o2, d) = qs
    ab, ba, bd, ad = [c.meth(r, "cmp_min", u, v) for u, v in ((a, b), (b, a), (b, d), (a, d))]
    first = lambda v: v > 0 if c.symbolic else v > 0
    neg = lambda v: v < 0
    c.ensure("antisymmetric", c.eq(ab, 0 - ba))
    # python sorts ascending: a negative value means the first argument comes first
    c.ensure("by source the quote with more output per input comes first", c.Implies(o0 * i1 > o1 * i0, neg(ab)))
    c.ensure("same rate: larger output first", c.Implies(c.And(c.eq(o0 * i1, o1 * i0), o0 > o1), neg(ab)))
    c.ensure("by target the order is reversed", c.eq(c.meth(r, "cmp_max", a, b), ba))
    c.ensure("transitive", c.Implies(c.And(ab <= 0, bd <= 0), ad <= 0))


def quotes(c, n, by_target):
    """n orders with liquidity Y and any quote function that keeps the contract of quote_is_limited_by_liquidity"""
    Y = [c.real(f"Y{k}", lo=0, rng=(0.1, 1e3)) for k in range(n)]
    if not c.symbolic:
        Y = [y if c.choice(f"some{k}", [0, 1, 1, 1, 1]) else 0.0 for k, y in enumerate(Y)]
    px = [c.real(f"p{k}", gt=0, rng=(1e-2, 1e2)) for k in range(n)] if not c.symbolic else None
    made = {}
    calls = []

    def trade(a, i):
        D = c.dec
        if not c.symbolic:
            # a convex cost: p * v * (1 + v / (1 + Y))
            y = D(Y[i])
            cost = lambda v: D(px[i]) * v * (1 + v / (1 + y))
            if by_target:
                v = min(D(a), y)
                q = (v, cost(v))
            else:
                # largest v with cost(v) <= a
                P, K = D(px[i]), 1 + y
                v = (-1 + (1 + 4 * D(a) / (P * K)).sqrt()) * K / 2
                q = (D(a), v) if v <= y else (cost(y), y)
            calls.append((i, float(a), float(q[0]), float(q[1])))
            return c.call(BR + "Rate", *q)
        key = (i, str(c.flt(a)))
        if key not in made:
            inp, out = c.real(f"qi{len(made)}", lo=0), c.real(f"qo{len(made)}", lo=0)
            if by_target:
                c.assume(c.eq(inp, c.If(a <= Y[i], a, Y[i])))
            else:
                c.assume(c.And(inp <= a, out <= Y[i], c.Or(c.eq(inp, a), c.eq(out, Y[i]))))
            # something for something
            c.assume(c.And(c.Implies(inp > 0, out > 0) if by_target else c.Implies(c.And(a > 0, Y[i] > 0), c.And(inp > 0, out > 0)),
                           c.Implies(c.eq(inp, 0), c.eq(out, 0)), c.Implies(c.eq(out, 0), c.eq(inp, 0))))
            made[key] = (inp, out)
        inp, out = made[key]
        calls.append((i, a, inp, out))
        return c.call(BR + "Rate", inp, out)
    return Y, trade, calls


def fast_match(c, n):
    by_target = c.bool("by_target")
    Y, trade, calls = quotes(c, n, by_target)
    r = c.call(FR)
    c.setattr(r, "orders", [c.record(y=c.dec(v)) for v in Y])
    a = c.real("amount", gt=0, rng=(1e-1, 3e3))
    if c.symbolic:
        c.assume(c.Or(*[v > 0 for v in Y]))
    elif not any(Y):
        c.assume(False)
    neg = c.bool("negative")
    cmp_ = c.attr(r, "cmp_max" if by_target else "cmp_min")
    acts = c.items(c.meth(r, "match", c.dec(-1 * a if neg else a), is_by_target=by_target, trade=c.func(trade, "trade"), cmp=cmp_))
    m = len(acts)
    idx = [c.attr(x, "index") for x in acts]
    c.ensure("each order at most once", len(set(idx)) == m and all(0 <= i < n for i in idx) and m > 0)
    I, O = [c.flt(c.attr(x, "input")) for x in acts], [c.flt(c.attr(x, "output")) for x in acts]
    si = so = 0
    for k in range(m):
        si, so = si + I[k], so + O[k]
        c.ensure("nothing negative", c.And(I[k] >= -EPS, O[k] >= -EPS))
        give = I[k] if by_target else O[k]
        c.ensure("no more than the order's liquidity", c.le(give, Y[idx[k]] + EPS, scale=Y[idx[k]]))
        # a quoted (input, output) of that order
        c.ensure("the order's own quote", c.Or(*[c.And(near(c, O[k], q[3]), c.Or(near(c, I[k], q[2]), near(c, I[k], q[1]))) for q in calls if q[0] == idx[k]]))
        sign = -1 if k == m - 1 else 1
        c.ensure("running totals", c.And(near(c, c.flt(c.attr(acts[k], "total_input")), si, k + 2), near(c, sign * c.flt(c.attr(acts[k], "total_output")), so, k + 2)))
    c.ensure("no more than the amount", c.le(si, a + (n + 1) * EPS, scale=a))
    sold = [i for i in range(n) if i not in idx]
    if by_target:
        tot = 0
        for v in Y:
            tot = tot + v
        c.ensure("the amount, or all there is", near(c, si, c.If(a <= tot, a, tot), n + 1))
    else:
        c.ensure("the whole amount unless everything is sold out",
                 c.Or(near(c, si, a, n + 1), c.And(*[near(c, O[k], Y[idx[k]]) for k in range(m)] + [c.eq(Y[i], 0) for i in sold])))
    # the first n quotes are for the whole amount: the ranking is theirs, and only the last order used may keep something
    first = {q[0]: q for q in calls[:n]}
    for k in range(m):
        qi, qo = first[idx[k]][2], first[idx[k]][3]
        if k < m - 1:
            c.ensure("only the last order used is not used up", c.And(near(c, I[k], qi), near(c, O[k], qo)))
        for j in [idx[l] for l in range(k + 1, m)] + sold:
            ri, ro = first[j][2], first[j][3]
            better = qo * ri >= ro * qi if not by_target else qo * ri <= ro * qi
            if not c.symbolic:
                better = better or abs(qo * ri - ro * qi) <= 1e-9 * abs(ro * qi)
            c.ensure("better quotes are used first", c.Or(c.eq(Y[j], 0), better))


@contract("R04", functions=[FR + ".match", FR + "._filter"], samples=1500, budget=60, kind="proved-bounded", max_paths=4000)
def fast_match_one_or_two_orders(c):
    """matching goes through the orders from the best quote down, each used up before the next, until the amount is reached; totals are the sums"""
    fast_match(c, c.choice("n", [1, 2]))


@contract("R04", functions=[FR + ".match", FR + "._filter"], samples=1500, budget=60, kind="proved-bounded", max_paths=4000, weight=6, split=25)
def fast_match_three_orders(c):
    """matching goes through the orders from the best quote down, each used up before the next, until the amount is reached; totals are the sums"""
    fast_match(c, 3)


@contract("R04", functions=[FR + ".match_by_target", FR + ".match_by_src", FR + ".match"], samples=600, budget=60)
def fast_match_uses_the_curves(c):
    """matching against one order by target or by source, amounts of either sign: the curve's own trade, limited by the liquidity"""
    o, B, S, z, y = order(c)
    c.assume(y > 0)
    r = router(c, FR, [o])
    a = c.real("amount", gt=0, rng=(1e-1, 1e4))
    neg = c.bool("negative")
    x = c.dec(-1 * a if neg else a)
    bt = c.bool("by_target")
    acts = c.items(c.meth(r, "match_by_target" if bt else "match_by_src", x))
    c.ensure("one action", len(acts) == 1)
    I, O, ti, to = [c.flt(c.attr(acts[0], f)) for f in ("input", "output", "total_input", "total_output")]
    if bt:
        v = c.If(a <= y, a, y)
        c.ensure("amount or all there is", near(c, I, v))
        c.ensure("at the cost of the curve", near(c, O, ref_dx(c, v, y, B, S, z)))
    else:
        full = ref_dy(c, a, y, B, S, z)
        if c.split(c.le(full, y)):
            c.ensure("the whole amount buys what the curve gives", c.And(near(c, I, a), near(c, O, full)))
        else:
            c.ensure("sold out at the cost of the curve", c.And(near(c, O, y), near(c, I, ref_dx(c, y, y, B, S, z))))
    c.ensure("totals", c.And(near(c, ti, I), near(c, to, -1 * O)))


def book(c, n, what="o"):
    """n orders as curve parameters, some with the same prices"""
    out = []
    for k in range(n):
        if k and c.choice(f"{what}{k}like", [0, 0, 0, 1]):
            B, S = out[0][1], out[0][2]
        else:
            r, Q = c.real(f"{what}{k}r", gt=0, lt=1, rng=(0.5, 0.99)), c.real(f"{what}{k}Q", gt=0, rng=(0.3, 3))
            B = Q * r * r
            S = Q - B
        z = c.real(f"{what}{k}z", gt=0, rng=(1, 1e3))
        y = z * c.real(f"{what}{k}f", gt=0, hi=1, rng=(1e-2, 1))
        out.append((c.call("carbon.order:Order", B=c.dec(B), S=c.dec(S), y_int=c.dec(z), _y=c.dec(y), id=k, linked_to_id=k), B, S, z, y))
    return out


@contract("R04", functions=[FR + ".match_by_target", FR + ".match_by_src", FR + ".match"], samples=1500, kind="bounded", weight=1)
def fast_match_many_orders(c):
    """two to six real orders: complete, within liquidity, each order's curve price, best quote first"""
    n = c.choice("n", [2, 3, 4, 6])
    b = book(c, n)
    r = router(c, FR, [o[0] for o in b])
    a = c.real("amount", gt=0, rng=(1e-1, 3e3))
    bt = c.bool("by_target")
    acts = c.meth(r, "match_by_target" if bt else "match_by_src", c.dec(a))
    idx = [x.index for x in acts]
    tot = sum(o[4] for o in b)
    si = sum(x.input for x in acts)
    c.ensure("each order at most once", len(set(idx)) == len(idx))
    quote = lambda k, v: ref_dx(c, v, b[k][4], *b[k][1:4])
    gets = lambda k, v: ref_dy(c, v, b[k][4], *b[k][1:4])
    for x in acts:
        give, pay = (x.input, x.output) if bt else (x.output, x.input)
        c.ensure("within liquidity", give <= b[x.index][4] * (1 + 1e-9) + 1e-11)
        c.ensure("curve price", abs(pay - quote(x.index, give)) <= 1e-9 * abs(pay) + 1e-10)
    if bt:
        c.ensure("complete", abs(si - min(a, tot)) <= 1e-9 * a)
    else:
        c.ensure("complete", abs(si - a) <= 1e-9 * a or all(abs({x.index: x.output for x in acts}.get(k, 0) - b[k][4]) <= 1e-9 * b[k][4] for k in range(n)))
    c.ensure("totals", abs(acts[-1].total_input - si) <= 1e-9 * si and abs(acts[-1].total_output + sum(x.output for x in acts)) <= 1e-9 * abs(acts[-1].total_output))

    def rate(k):
        if bt:
            v = min(a, b[k][4])
            return quote(k, v) / v
        v = min(gets(k, a), b[k][4])
        return quote(k, v) / v
    rates = [rate(k) for k in idx] + [min(rate(k) for k in range(n) if k not in idx) if len(idx) < n else float("inf")]
    c.ensure("best quote first", all(u <= v * (1 + 1e-9) for u, v in zip(rates, rates[1:])))


SEL = AR + ".gen_one_order_selector"


@contract("R05", functions=[SEL] + [AR + "." + f for f in ("max_item", "min_item", "sum_me", "get_i", "list_indexes", "assertion_checks")],
          samples=2000, budget=120, kind="proved-bounded", max_paths=4000)
def selection_is_sufficient(c):
    """out of the ranked orders at most as many as allowed are selected, without repetition; together they hold the amount whenever that many
    orders can, the most liquid ones otherwise; and no order ranked behind the first sufficient ones is taken"""
    n = c.choice("n", [1, 2, 3, 4])
    k = c.choice("k", [1, 2, 3, 4, 5])
    v = [c.real(f"v{i}", lo=0, rng=(1e-1, 1e2)) for i in range(n)]
    if not c.symbolic:
        # few distinct values, exact sums
        v = [float(int(x)) for x in v]
    t = c.real("t", gt=0, rng=(1e-1, 4e2))
    if not c.symbolic and c.bool("round"):
        t = float(int(t)) + 0.0
        c.assume(t > 0)
    r = c.items(c.call(SEL, c.lift(list(v)), t, k))
    import itertools
    m = min(k, n)
    c.ensure("as many as allowed, no repetition", len(r) == m and len(set(r)) == m and all(0 <= i < n for i in r))
    tot = lambda ix: sum_(v[i] for i in ix)
    s = tot(r)
    subsets = [tot(ix) for ix in itertools.combinations(range(n), m)]
    can = c.Or(*[x >= t for x in subsets])
    c.ensure("enough whenever that many orders can be", c.Implies(can, s >= t))
    c.ensure("otherwise the most liquid ones", c.Implies(c.Not(can), c.And(*[s >= x for x in subsets])))
    last = max(r)
    if last >= m:
        c.ensure("nothing behind the first sufficient ones", c.Implies(can, c.And(*[tot(ix) < t for ix in itertools.combinations(range(last), m)])))


def sum_(it):
    r = 0
    for x in it:
        r = r + x
    return r


@contract("R05", functions=[AR + ".match_by_target", AR + ".match_by_src", AR + ".match", SEL], samples=800, kind="bounded", weight=2)
def alpha_match_is_the_exact_match_of_its_selection(c):
    """at most the allowed number of orders is used, and on those the result is the exact router's: complete, within liquidity, at curve prices;
    an amount that the allowed number of orders can deliver is never refused, a partial match is possible when asked for"""
    n = c.choice("n", [1, 2, 3, 4, 6])
    b = book(c, n)
    k = c.choice("k", [1, 2, 3, 10])
    bt = c.bool("by_target")
    liq = sorted([o[4] for o in b], reverse=True)
    can_pay = sum(ref_dx(c, o[4], o[4], *o[1:4]) for o in b)
    cap = sum(liq[:k]) if bt else can_pay
    a = cap * c.real("share", gt=0, rng=(1e-3, 1.5))
    r = router(c, AR, [o[0] for o in b])
    x = c.dec(-a if bt else a)
    partial = c.bool("partial")
    o = c.try_meth(r, "match_by_target" if bt else "match_by_src", x, threshold_orders=k, support_partial=partial)
    if not o.ok:
        c.ensure("an available amount is not refused", a > cap * (1 - 1e-9) or (not bt and k < n))
        if partial and k >= n:
            c.ensure("a partial match is not refused", False)
        return
    acts = o.value
    idx = [int(x_.index) for x_ in acts]
    c.ensure("at most the allowed number of orders", len(idx) <= k and len(set(idx)) == len(idx))
    g, p = [abs(x_.output) for x_ in acts], [x_.input for x_ in acts]
    for i, v, w in zip(idx, g, p):
        c.ensure("within liquidity", v <= b[i][4] * (1 + 1e-9))
        c.ensure("curve price", abs(w - ref_dx(c, v, b[i][4], *b[i][1:4])) <= 1e-7 * w + 1e-9)
    got = sum(g) if bt else sum(p)
    c.ensure("the amount asked for, or a partial match where allowed", abs(got - a) <= 1e-7 * a or (partial and got < a))
    if not partial or a <= cap * (1 - 1e-9) and (bt and k >= n):
        c.ensure("complete", abs(got - a) <= 1e-7 * a)
    c.ensure("totals", abs(abs(acts[-1].total_output) - sum(g)) <= 1e-7 * sum(g) and abs(acts[-1].total_input - sum(p)) <= 1e-7 * sum(p))
    # marginal rates: no used order could hand over to another used one
    sq = lambda i, v: b[i][1] + b[i][2] * (b[i][4] - v) / b[i][3]
    left = [sq(i, v) for i, v in zip(idx, g)]
    for (i, v) in zip(idx, g):
        for (j, w) in zip(idx, g):
            if w < b[j][4] * (1 - 1e-9):
                c.ensure("no better split among the selected orders", sq(j, w) <= sq(i, v) * (1 + 1e-6))
