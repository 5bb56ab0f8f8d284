"""Strategy descriptions of the simulator helpers (carbon/helpers/strategym.py), the simulation along a price path, and price paths."""
from pyvc.api import contract

M = "carbon.helpers.strategym:"
ST = M + "strategy"
FIELDS = ["p_sell_a", "p_sell_b", "p_buy_a", "p_buy_b", "amt_rsk", "amt_csh", "psell_marginal", "pbuy_marginal", "y_int_sell", "y_int_buy", "rsk", "csh"]


def same(c, a, b):
    return b is None if a is None else (b is not None and (a == b if isinstance(a, (str, bool)) else c.eq(a, b)))


def given(c, name, opts=("none", "pos", "zero")):
    k = c.choice("?" + name, list(opts))
    return None if k == "none" else 0 if k == "zero" else c.real(name, gt=0, rng=(0.01, 1000))


def a_strategy(c, prefix="", amounts=("none", "pos", "zero"), **more):
    """a strategy given by its fields"""
    f = {n: c.real(prefix + n, gt=0, rng=(1, 1000)) for n in ("p_sell_a", "p_sell_b", "p_buy_a", "p_buy_b")}
    f["amt_rsk"] = given(c, prefix + "amt_rsk", amounts)
    f["amt_csh"] = given(c, prefix + "amt_csh", amounts)
    how = c.choice(prefix + "seeding", ["plain", "marginal", "marginal sell", "yint", "yint buy"])
    f["psell_marginal"] = c.real(prefix + "pms", gt=0, rng=(1, 1000)) if how.startswith("marginal") else None
    f["pbuy_marginal"] = c.real(prefix + "pmb", gt=0, rng=(1, 1000)) if how == "marginal" else None
    f["y_int_sell"] = c.real(prefix + "yis", gt=0, rng=(1, 1000)) if how == "yint" else None
    f["y_int_buy"] = c.real(prefix + "yib", gt=0, rng=(1, 1000)) if how.startswith("yint") else None
    f.update(more)
    return c.call(ST, **f), f


@contract("L01", functions=[ST + ".__post_init__", ST + ".dct", ST + ".slashpair", ST + ".p"], samples=200)
def strategies_are_what_was_given(c):
    """a strategy has the numbers it was given, zero amounts are the minimum seed amount; the dict for the simulator has the same numbers under the right names"""
    rsk, csh = c.choice("rsk", [None, "ETH", "absent"]), c.choice("csh", [None, "USDC", "absent"])
    more = {}
    if rsk != "absent":
        more["rsk"] = rsk
    if csh != "absent":
        more["csh"] = csh
    s, f = a_strategy(c, **more)
    f["rsk"] = rsk if rsk == "ETH" else "RSK"
    f["csh"] = csh if csh == "USDC" else "CSH"
    for n in ("amt_rsk", "amt_csh"):
        if f[n] is not None and not c.split(f[n] != 0 if not isinstance(f[n], int) else f[n] != 0):
            f[n] = c.rational(1, 10 ** 10)
    for n in FIELDS:
        c.ensure(n, same(c, f[n], c.attr(s, n)))
    d = dict(c.dict_items(c.attr(s, "dct")))
    names = {"tkn": "rsk", "amt_sell": "amt_rsk", "psell_start": "p_sell_a", "psell_end": "p_sell_b", "amt_buy": "amt_csh", "pbuy_start": "p_buy_a",
             "pbuy_end": "p_buy_b", "psell_marginal": "psell_marginal", "pbuy_marginal": "pbuy_marginal", "y_int_sell": "y_int_sell", "y_int_buy": "y_int_buy"}
    c.ensure("keys", sorted(d) == sorted(list(names) + ["pair"]))
    for k, n in names.items():
        c.ensure("dct " + k, same(c, f[n], d[k]))
    c.ensure("pair", c.And(c.attr(s, "slashpair") == f["rsk"] + "/" + f["csh"], d["pair"] == f["rsk"] + "/" + f["csh"]))
    p = c.items(c.attr(s, "p"))
    for x, n in zip(p, ["rsk", "amt_rsk", "p_sell_a", "p_sell_b", "amt_csh", "p_buy_a", "p_buy_b"]):
        c.ensure("p " + n, same(c, f[n], x))


@contract("L01", functions=[ST + ".__post_init__"], samples=60)
def only_one_kind_of_seeding(c):
    """marginal prices and y_int are not accepted together"""
    kw = {}
    for n in ("psell_marginal", "pbuy_marginal", "y_int_sell", "y_int_buy"):
        kw[n] = given(c, n, ("none", "pos"))
    out = c.try_(ST, 110, 120, 100, 90, **kw)
    both = (kw["psell_marginal"] is not None or kw["pbuy_marginal"] is not None) and (kw["y_int_sell"] is not None or kw["y_int_buy"] is not None)
    c.ensure("refused", out.raised("ValueError") if both else out.ok)


@contract("L01", functions=[ST + ".rescale_strat", ST + ".__post_init__"], samples=300, max_paths=1500)
def rescaling_moves_prices_with_the_spot(c):
    """rescaling multiplies every price by new over old spot and keeps the amounts; strategies not to be rescaled stay as they are unless forced;
    the original does not change"""
    rescale = c.choice("rescale", [True, False, "default"])
    s, f = a_strategy(c, amounts=("none", "pos"), **({} if rescale == "default" else {"rescale": rescale}), rsk="ETH", csh="USDC")
    snap = c.snapshot(s)
    old = {n: c.attr(s, n) for n in FIELDS}
    kw = {}
    new, base = 100, 100
    if c.choice("new?", [True, False]):
        new = kw["newspot"] = c.real("new", gt=0, rng=(1, 2000))
    if c.choice("old?", [True, False]):
        base = kw["oldspot"] = c.real("old", gt=0, rng=(1, 2000))
    force = c.choice("force", [True, False, "absent"])
    if force != "absent":
        kw["force"] = force
    r = c.meth(s, "rescale_strat", **kw)
    c.ensure("a new object", not c.same(r, s))
    c.ensure("original unchanged", c.unchanged(snap, c.snapshot(s)))
    done = rescale is not False or force is True
    for n in FIELDS:
        want = old[n]
        if done and want is not None and n in ("p_sell_a", "p_sell_b", "p_buy_a", "p_buy_b", "psell_marginal", "pbuy_marginal", "y_int_buy"):
            c.ensure(n, c.eq(c.attr(r, n) * base, want * new))
        else:
            c.ensure(n, same(c, want, c.attr(r, n)))
    if done:
        c.ensure("factor", c.eq(c.attr(r, "rescaled_fctr") * base, new))
        c.ensure("not again", c.attr(r, "rescale") is False)
    else:
        c.ensure("factor", c.attr(r, "rescaled_fctr") is None)


@contract("L01", functions=[ST + ".set_tvl"], samples=200)
def tvl_is_split_between_cash_and_risk(c):
    """without amounts, the value is split into cash and risk asset at the spot price; amounts given (also zero) stay"""
    s, f = a_strategy(c)
    snap = c.snapshot(s)
    spot, pc, tvl = c.real("spot", gt=0, rng=(1, 1000)), c.real("pc", lo=0, hi=1, rng=(0, 1), log=False), c.real("tvl", lo=0, rng=(1, 10000))
    r = c.meth(s, "set_tvl", spot, pc, tvl) if c.bool("positional") else c.meth(s, "set_tvl", tvl=tvl, cashpc=pc, spot=spot)
    c.ensure("original unchanged", c.unchanged(snap, c.snapshot(s)) and not c.same(r, s))
    if f["amt_rsk"] is None and f["amt_csh"] is None:
        c.ensure("value", c.eq(c.attr(r, "amt_rsk") * spot + c.attr(r, "amt_csh"), tvl))
        c.ensure("cash", c.eq(c.attr(r, "amt_csh"), tvl * pc))
    else:
        for n in ("amt_rsk", "amt_csh"):
            c.ensure(n, same(c, c.attr(s, n), c.attr(r, n)))
    for n in FIELDS:
        if not n.startswith("amt"):
            c.ensure(n, same(c, c.attr(s, n), c.attr(r, n)))


def one_or_two(c, name, mk, kinds=("one", "tuple", "list")):
    """a number, or a tuple / list of two: (argument, first, second)"""
    k = c.choice(name + "?", list(kinds))
    a = mk(name)
    if k == "one":
        return a, a, a
    b = mk(name + "2")
    return (c.lift([a, b]) if k == "list" else (a, b)), a, b


@contract("L01", functions=[ST + ".from_mgw", ST + "._validate"], samples=600, weight=2, budget=90, max_paths=1500)
def ranges_from_mid_gap_and_width(c):
    """the ranges around the mid price: the inner ends half a gap away, the outer ends a width further out; the marginal prices the utilisation into the range"""
    m = c.real("m", gt=0, rng=(1, 1000))
    z = c.choice("g0", [True, False])
    g = 0 if z else c.real("g", gt=0, hi=2, rng=(0.001, 1))

    def wid(n):
        return 0 if c.choice(n + "=0", [True, False]) else c.real(n, gt=0, hi=0.999, rng=(0.001, .99))

    def uti(n):
        k = c.choice(n + "u", ["zero", "some", "top"])
        return 0 if k == "zero" else c.real(n, gt=0, hi=0.999, rng=(0.001, .99)) if k == "some" else c.real(n, gt=0.999, hi=1, rng=(.9991, 1))
    w, ws, wb = one_or_two(c, "w", wid)
    u, us, ub = one_or_two(c, "u", uti, ("one", "tuple"))
    amt_rsk, amt_csh = given(c, "amt_rsk", ("none", "pos")), c.real("amt_csh", gt=0, rng=(1, 100))
    if c.choice("names", [True, False]):
        s = c.call(ST + ".from_mgw", m=m, g=g, w=w, u=u, amt_rsk=amt_rsk, amt_csh=amt_csh, rsk="ETH", csh="USDC")
        pair = "ETH/USDC"
    else:
        s = c.call(ST + ".from_mgw", m, g, w, u, amt_rsk, amt_csh)
        pair = "RSK/CSH"
    tiny = c.rational(1, 10 ** 4)
    g = tiny if z else g
    ws = tiny if isinstance(ws, int) else ws
    wb = tiny if isinstance(wb, int) else wb
    f = {n: c.attr(s, n) for n in FIELDS}
    c.ensure("inner buy", c.eq(f["p_buy_a"] * (1 + g / 2), m))
    c.ensure("inner sell", c.eq(f["p_sell_a"], m * (1 + g / 2)))
    c.ensure("outer buy", c.eq(f["p_buy_b"] * (1 + wb), f["p_buy_a"]))
    c.ensure("outer sell", c.eq(f["p_sell_b"], f["p_sell_a"] * (1 + ws)))
    for n, x, a, b in (("psell_marginal", us, "p_sell_a", "p_sell_b"), ("pbuy_marginal", ub, "p_buy_a", "p_buy_b")):
        if isinstance(x, int):
            c.ensure(n, f[n] is None)
        else:
            c.ensure(n + " set", f[n] is not None)
            cap = c.rational(999, 1000)
            x = c.If(x > cap, cap, x)
            c.ensure(n, c.eq(f[n], f[a] + x * (f[b] - f[a])))
    c.ensure("amounts", c.And(same(c, amt_rsk, f["amt_rsk"]), same(c, amt_csh, f["amt_csh"])))
    c.ensure("no y_int", f["y_int_sell"] is None and f["y_int_buy"] is None)
    c.ensure("pair", c.attr(s, "slashpair") == pair)
    c.ensure("to be rescaled", c.attr(s, "rescale") is True)


@contract("L01", functions=[ST + ".from_mgw", ST + "._validate"], samples=60)
def utilisation_out_of_range_is_refused(c):
    """a utilisation or width below 0 or above 1 is refused, in either place of a tuple"""
    bad = c.real("bad", rng=(-2, 3), log=False)
    c.assume(c.Or(bad < 0, bad > 1))
    ok = c.real("ok", gt=0, hi=1, rng=(.01, 1))
    v = {"one": bad, "first": (bad, ok), "second": (ok, bad), "list": c.lift([ok, bad])}[c.choice("how", ["one", "first", "second", "list"])]
    which = c.choice("which", ["u", "w"])
    c.ensure("refused", c.try_(ST + ".from_mgw", m=100, g=0.1, **{"w": 0.1, which: v}).raised("ValueError"))


@contract("L01", functions=[ST + ".from_sb", ST + "._sorted"], samples=200)
def ranges_from_sell_and_buy(c):
    """sell ranges go up and buy ranges go down whatever the order given; a single price is a range of one; overlapping ranges are refused unless allowed"""
    def pr(n):
        return c.real(n, gt=0, rng=(1, 1000))

    sell, s1, s2 = one_or_two(c, "sell", pr)
    buy, b1, b2 = one_or_two(c, "buy", pr)
    fixed = c.choice("fixed", [True, False, "absent"])
    ov = c.choice("overlapping", [True, False, "absent"])
    kw = {}
    if fixed != "absent":
        kw["fixed"] = fixed
    if ov != "absent":
        kw["overlapping"] = ov
    out = c.try_(ST + ".from_sb", sell, buy, **kw)
    lo = c.If(s1 < s2, s1, s2)
    hi = c.If(b1 > b2, b1, b2)
    if ov is not True and c.split(hi > lo):
        c.ensure("refused", out.raised("ValueError"))
        return
    c.ensure("accepted", out.ok)
    s = out.value
    c.ensure("sell", c.And(c.eq(c.attr(s, "p_sell_a"), lo), c.eq(c.attr(s, "p_sell_b"), c.If(s1 < s2, s2, s1))))
    c.ensure("buy", c.And(c.eq(c.attr(s, "p_buy_a"), hi), c.eq(c.attr(s, "p_buy_b"), c.If(b1 > b2, b2, b1))))
    c.ensure("fixed", c.attr(s, "rescale") is (fixed is False))
    c.ensure("no amounts", c.attr(s, "amt_rsk") is None and c.attr(s, "amt_csh") is None)


@contract("L01", functions=[ST + ".from_u3"], samples=200)
def uniswap_position_as_strategy(c):
    """both ranges are the range of the position, the fee apart around its geometric middle; all in the risk asset below, all in cash above, and worth the value given
    at full range; never rescaled"""
    lo, hi = c.real("lo", gt=0, rng=(1, 1000)), c.real("hi", gt=0, rng=(1, 1000))
    below = c.bool("below")
    kw = {}
    fee = tvl = None
    if c.choice("fee?", [True, False]):
        fee = kw["fee_pc"] = c.real("fee", lo=0, hi=0.5, rng=(0, .1), log=False)
    if c.choice("tvl?", [True, False]):
        tvl = kw["tvl_csh"] = c.real("tvl", gt=0, rng=(1, 10000))
    if c.choice("names", [True, False]):
        kw.update(rsk="ETH", csh="USDC")
    out = c.try_(ST + ".from_u3", lo, hi, below, **kw)
    if c.split(hi < lo):
        c.ensure("refused", out.raised("ValueError"))
        return
    s = out.value
    c.ensure("pair", c.attr(s, "slashpair") == ("ETH/USDC" if "rsk" in kw else "RSK/CSH"))
    f = {n: c.attr(s, n) for n in FIELDS}
    tvl = 1000 if tvl is None else tvl
    mid = c.sqrt(lo * hi)
    sh = 0 if fee is None else mid * fee / 2
    c.ensure("sell range", c.And(c.eq(f["p_sell_a"], lo + sh), c.eq(f["p_sell_b"], hi + sh)))
    c.ensure("buy range", c.And(c.eq(f["p_buy_a"], hi - sh, scale=hi + sh), c.eq(f["p_buy_b"], lo - sh, scale=lo + sh)))
    seed = c.rational(1, 10 ** 10)
    if c.split(below):
        c.ensure("risk", c.And(c.eq(f["amt_rsk"] * mid, tvl), c.eq(f["amt_csh"], seed)))
    else:
        c.ensure("cash", c.And(c.eq(f["amt_rsk"], seed), c.eq(f["amt_csh"], tvl)))
    c.ensure("capacity", c.And(c.eq(f["y_int_sell"] * mid, tvl), c.eq(f["y_int_buy"], tvl)))
    c.ensure("marginal prices", f["psell_marginal"] is None and f["pbuy_marginal"] is None)
    c.ensure("never rescaled", c.attr(s, "rescale") is False)


@contract("L01", functions=[ST + ".from_dct"], samples=200)
def strategies_from_records(c):
    """a record is built by the constructor it names, with its numbers; an unknown type is refused, or gives nothing if errors are not asked for"""
    kind = c.choice("type", ["mgw", "MGW", "fixed", "uv3", "UV3", "xyz"])

    def pr(n):
        return c.real(n, gt=0, rng=(1, 1000))

    def pc(n):
        return c.real(n, gt=0, hi=0.99, rng=(.01, .99))
    d = {"strat_type": kind}
    k = kind.lower()
    if k == "mgw":
        d.update(strat_m=pr("m"), strat_g=pc("g"))
        w, u = pc("w"), pc("u")
        if c.choice("wtuple", [True, False]):
            w = (w, pc("w2"))
            d.update(strat_wsell=w[0], strat_wbuy=w[1])
        else:
            d.update(strat_w=w)
        if c.choice("utuple", [True, False]):
            u = (u, pc("u2"))
            d.update(strat_usell=u[0], strat_ubuy=u[1])
        else:
            d.update(strat_u=u)
        want = c.call(ST + ".from_mgw", m=d["strat_m"], g=d["strat_g"], w=w, u=u)
    elif k == "fixed":
        d.update(p_sell_a=pr("sa"), p_sell_b=pr("sb"), p_buy_a=pr("ba"), p_buy_b=pr("bb"))
        want = c.call(ST, d["p_sell_a"], d["p_sell_b"], d["p_buy_a"], d["p_buy_b"], rescale=False)
    elif k == "uv3":
        d.update(p_lo=pr("lo"), p_hi=pr("hi"), start_below=c.choice("below", [0, 1, True, False]), fee_pc=pc("fee"))
        c.assume(d["p_hi"] >= d["p_lo"])
        want = c.call(ST + ".from_u3", d["p_lo"], d["p_hi"], bool(d["start_below"]), fee_pc=d["fee_pc"])
    raiseonerror = c.choice("raiseonerror", [True, False, "absent"])
    drop = c.choice("drop", [False, True])
    if drop and k != "xyz":
        del d[[x for x in d if x not in ("strat_type", "strat_wsell", "strat_usell")][0]]
    out = c.try_(ST + ".from_dct", c.lift(d), **({} if raiseonerror == "absent" else {"raiseonerror": raiseonerror}))
    if k == "xyz" or drop:
        c.ensure("refused", out.raised() if raiseonerror is not False else out.ok and out.value is None)
        return
    c.ensure("accepted", out.ok)
    for n in FIELDS + ["rescale"]:
        c.ensure(n, same(c, c.attr(want, n), c.attr(out.value, n)))


@contract("L01", functions=[ST + ".dr", ST + ".drr", ST + ".r0", ST + ".filter_isnan"], samples=60)
def differences_of_records(c):
    """a difference shows exactly the fields that are not those of the base line"""
    ch = [c.choice(f"ch{k}", [True, False]) for k in range(3)]
    r0 = {"id0": 1, "comment": "a", "x": 5, "y": c.real("y", rng=(1, 2)), "z": "q"}
    r = dict(r0, id0=2, comment="b")
    if ch[0]:
        r["x"] = 6
    if ch[1]:
        r["y"] = r0["y"] + 1
    if ch[2]:
        r["z"] = "p"
    want = [k for k, b in zip(("x", "y", "z"), ch) if b]
    purge = c.choice("purge", [True, False, "absent"])
    kw = {} if purge == "absent" else {"purge": purge}
    d = dict(c.dict_items(c.call(ST + ".dr", c.lift(r), c.lift(r0), **kw)))
    if purge is not False:
        c.ensure("changes", sorted(d) == want)
    else:
        c.ensure("all fields", sorted(d) == sorted(r0) and sorted(k for k in d if d[k] is not None) == sorted(want + ["id0", "comment"]))
    for k in want:
        c.ensure("value " + k, same(c, r[k], d[k]))
    rr = c.lift({"base": r0, "one": r})
    c.ensure("base", sorted(dict(c.dict_items(c.call(ST + ".r0", rr)))) == sorted(r0))
    base = c.choice("baseline", [True, False, "absent"])
    dd = dict(c.dict_items(c.call(ST + ".drr", rr, **(kw if base == "absent" else dict(kw, baseline=base)))))
    c.ensure("records", list(dd) == ["base", "one"])
    c.ensure("one", sorted(dict(c.dict_items(dd["one"]))) == sorted(d))
    b = dict(c.dict_items(dd["base"]))
    if base is True:
        c.ensure("base line", sorted(b) == ["x", "y", "z"])
    else:
        c.ensure("no change", all(v is None for v in b.values()))
    v = c.choice("v", [3, 2.5, "text", None])
    c.ensure("kept", c.pyeq(c.call(ST + ".filter_isnan", v), c.lift(v)))
    c.ensure("nan", c.call(ST + ".filter_isnan", float("nan")) == "")
