"""Simulation along a price path (carbon/helpers/simulation.py): H01;  price paths (pathgenerator.py, pathinterpolation.py, pdread.py): H02."""
from pyvc.api import contract

M = "carbon.helpers.simulation:"
ST = "carbon.helpers.strategym:strategy"
UI = "carbon.carbon_order_ui:CarbonOrderUI"
SIM = "carbon.simulators.carbon_simulator:CarbonSimulatorUI"


def the_strategy(c, i, rescale=None, seeded=("both",)):
    """a strategy around 100: buys at pbb..pba, sells at psa..psb"""
    pbb = c.real(f"pbb{i}", gt=0, rng=(20, 90))
    pba = pbb * (1 + c.real(f"wb{i}", gt=0, rng=(.05, .3)))
    psa = pba * (1 + c.real(f"gap{i}", gt=0, rng=(.05, .3)))
    psb = psa * (1 + c.real(f"ws{i}", gt=0, rng=(.05, .3)))
    kind = c.choice(f"seeded{i}", list(seeded))
    rsk = c.real(f"rsk{i}", gt=0, rng=(1, 100)) if kind in ("both", "rsk") else 0
    csh = c.real(f"csh{i}", gt=0, rng=(100, 1e4)) if kind in ("both", "csh") else 0
    kw = {} if rescale is None else {"rescale": rescale}
    s = c.call(ST, p_sell_a=psa, p_sell_b=psb, p_buy_a=pba, p_buy_b=pbb, amt_rsk=rsk, amt_csh=csh, rsk="ETH", csh="USDC", **kw)
    return s, (psa, psb, pba, pbb, rsk, csh)


def held(c, os_):
    return sum(c.attr(o, "y") for o in os_)


def check_run(c, r, strats, path, shift):
    """the same strategies as orders of their own, moved along the path one price after the other by the (proved) trade of an order to a price"""
    n = len(path)
    sim = c.call(SIM, pair="ETH/USDC")
    for s in strats:
        c.meth(sim, "add_strategy", **dict(c.dict_items(c.attr(c.meth(s, "rescale_strat", path[0] * (1 + shift)), "dct"))))
    orders = [o for _, o in c.dict_items(c.item(c.meth(sim, "state"), "orderuis"))]
    rsk = [o for o in orders if c.attr(o, "tkn") == "ETH"]
    csh = [o for o in orders if c.attr(o, "tkn") == "USDC"]
    c.ensure("two orders per strategy", len(rsk) == len(csh) == len(strats))
    R, C = [held(c, rsk)], [held(c, csh)]
    P, Q = [[c.attr(o, "p_marg") for o in rsk]], [[c.attr(o, "p_marg") for o in csh]]
    for p in path[1:]:
        for o in orders:
            c.meth(o, "tradeto", p)
        R.append(held(c, rsk))
        C.append(held(c, csh))
        P.append([c.attr(o, "p_marg") for o in rsk])
        Q.append([c.attr(o, "p_marg") for o in csh])
    for name, exp in (("rskamt_r", R), ("cshamt_r", C), ("spot_r", path), ("value_r", [a * p + b for a, b, p in zip(R, C, path)]), ("hodl_r", [R[0] * p + C[0] for p in path])):
        got = list(c.items(c.attr(r, name)))
        c.ensure(name + ": one number per price", len(got) == n)
        for a, b in zip(got, exp):
            c.ensure(name, c.eq(a, b))
    for name, exp in (("margpbuy_r", P), ("margpsell_r", Q)):
        got = [list(c.items(x)) for x in c.items(c.attr(r, name))]
        c.ensure(name + ": one series per strategy", len(got) == len(strats) and all(len(x) == n for x in got))
        for i, x in enumerate(got):
            for j, v in enumerate(x):
                c.ensure(name, c.eq(v, exp[j][i]))
    return R, C


RS = [M + "run_sim", UI + ".tradeto", UI + ".addliqy", ST + ".rescale_strat", SIM + ".add_strategy", SIM + ".state"]


@contract("H01", functions=RS, samples=150, weight=4, max_paths=3000, budget=90, kind="proved-bounded", split=30)
def one_step_of_a_simulation(c):
    """a simulation starts with the amounts of the strategies and reports, after a move of the price, what every order holds after trading to that price; the value is that of both amounts at the price"""
    s, (psa, psb, pba, pbb, rsk, csh) = the_strategy(c, 0)
    p0, p1 = c.real("p0", gt=0, rng=(50, 150)), c.real("p1", gt=0, rng=(20, 300))
    path = [p0, p1]
    how = c.choice("as", ["one", "list"])
    r = c.call(M + "run_sim", s if how == "one" else c.lift([s]), c.call("pandas:Series", c.lift(path)))
    R, C = check_run(c, r, [s], path, 0)
    c.ensure("starts with the amounts of the strategy", c.And(c.eq(R[0], rsk), c.eq(C[0], csh)))


@contract("H01", functions=RS, samples=300, weight=2, kind="bounded")
def simulations_follow_the_path(c):
    """portfolios of one to three strategies along paths of one to eight prices, any shift, zero prices in front: every series reported is that of the orders traded to each price in turn; tokens are only exchanged within the ranges"""
    k = c.choice("strategies", [1, 2, 3])
    rescale = c.choice("rescale", [None, True, False])
    ss = [the_strategy(c, i, rescale, ("both", "rsk", "csh")) for i in range(k)]
    shift = c.choice("shift", [None, 0, .1, -.2])
    n = c.choice("n", [1, 2, 5, 8])
    path = [c.real(f"p{i}", gt=0, rng=(20, 300)) for i in range(n)]
    zeros = c.choice("zeros", [0, 0, 2])
    if c.choice("dates", [False, True]):
        import pandas
        ser = pandas.Series([0] * zeros + path, index=pandas.date_range("2020-01-01", periods=zeros + n))
    else:
        ser = c.call("pandas:Series", [0] * zeros + path)
    strats = [s for s, _ in ss]
    snap = c.snapshot(*strats)
    r = c.call(M + "run_sim", strats[0] if k == 1 else strats, ser, *(() if shift is None else (shift,)))
    c.ensure("strategies unchanged", c.unchanged(snap, c.snapshot(*strats)))
    c.ensure("same dates", list(r.spot_r.index) == list(ser.index[zeros:]) and list(r.value_r.index) == list(ser.index[zeros:]))
    R, C = check_run(c, r, strats, path, shift or 0)
    f = path[0] * (1 + (shift or 0)) / 100 if rescale is not False else 1
    lo, hi = min(q[3] for _, q in ss) * f, max(q[1] for _, q in ss) * f
    for i in range(1, n):
        dr, dc = R[i] - R[i - 1], C[i] - C[i - 1]
        if k == 1:
            tol = 1e-9 * (abs(R[i]) * hi + abs(C[i]) + 1)
            c.ensure("what is sold is paid for, at a price of the ranges", (dc >= -dr * lo - tol and dc <= -dr * hi + tol) if dr < 0 else (-dc >= dr * lo - tol and -dc <= dr * hi + tol))
        c.ensure("nothing is overdrawn", R[i] >= -1e-9 and C[i] >= -1e-9)
    if k > 1:
        other = c.call(ST, p_sell_a=110, p_sell_b=120, p_buy_a=90, p_buy_b=80, amt_rsk=1, amt_csh=1, rsk="LINK", csh="USDC")
        c.ensure("one pair only", c.try_(M + "run_sim", strats + [other], ser).raised("ValueError"))


@contract("H01", functions=[M + "StartConditions." + n for n in ("__init__", "strategy_carbon", "num_points", "path_raw", "carbon_order_weights", "carbon_ranges_raw", "carbon_prices", "starting_portfolio_valuation", "uni_ranges_raw")],
          samples=100, kind="bounded")
def start_conditions(c):
    """start conditions give the ranges, marginal prices and path of the raw data, and split the valuation between the two sides by the weights, the risk side at the first price"""
    sb, sa, ba, bb = 150 + c.real("a", rng=(0, 50)), 120 + c.real("b", rng=(0, 20)), 90 + c.real("d", rng=(0, 10)), 50 + c.real("e", rng=(0, 30))
    ms, mb = c.real("ms", rng=(120, 150)), c.real("mb", rng=(60, 90))
    w0, w1, v = c.real("w0", gt=0, rng=(.1, 1)), c.real("w1", gt=0, rng=(.1, 1)), c.real("v", gt=0, rng=(1, 1000))
    n = c.choice("n", [2, 5])
    path = [c.real(f"p{i}", gt=0, rng=(50, 150)) for i in range(n)]
    raw = {"carbon order boundaries": [str(x) for x in (sb, sa, ba, bb)], "carbon starting prices": [ms, mb], "carbon order weights": [w0, w1],
           "filtered price chart": path, "starting portfolio valuation": [v], "uniswap range boundaries": [1, "2"]}
    o = c.call(M + "StartConditions", raw)
    s = c.attr(o, "strategy_carbon")
    for k, x in (("p_sell_b", sb), ("p_sell_a", sa), ("p_buy_a", ba), ("p_buy_b", bb), ("psell_marginal", ms), ("pbuy_marginal", mb), ("amt_rsk", v * w0 / (w0 + w1) / path[0]), ("amt_csh", v * w1 / (w0 + w1))):
        c.ensure(k, c.eq(c.attr(s, k), x))
    c.ensure("path", list(c.attr(o, "path_raw")) == path and c.attr(o, "num_points") == n and list(c.attr(o, "uni_ranges_raw")) == [1, 2])
    p = c.attr(o, "path")
    c.ensure("dated path", list(p.values) == path and p.index[0] == o.start_dt and abs((p.index[-1] - o.end_dt).total_seconds()) < 1)


# ------------------------------------------------------------------------------------------------ H02: price paths
PI = "carbon.helpers.pathinterpolation:PathInterpolation"
PG = "carbon.helpers.pathgenerator:PathGenerator"
PD = "carbon.helpers.pdread:"


@contract("H02", functions=[PI + ".gaussian_bridge"], samples=300)
def bridges_connect_their_ends(c):
    """whatever the random numbers: a bridge starts and ends where it should and has one more point than segments; without volatility it is a straight line"""
    a, b = c.real("a", gt=0, rng=(1, 100)), c.real("b", gt=0, rng=(1, 100))
    n = c.choice("n", [0, 1, 2, 3, 7])
    quiet = c.choice("quiet", [False, True]) and not c.symbolic
    sig = 0 if quiet else c.real("sig", gt=0, rng=(.01, .5))
    v = list(c.items(c.call(PI + ".gaussian_bridge", a, b, sig, n)))
    c.ensure("points", len(v) == max(n, 1) + 1)
    c.ensure("ends", c.And(c.eq(v[0], a), c.eq(v[-1], b)))
    if quiet:
        for i, x in enumerate(v):
            c.ensure("straight", c.eq(x, a + (b - a) * i / max(n, 1)))


@contract("H02", functions=[PG + ".__init__", PG + ".path", PG + ".__call__"], samples=200)
def generated_paths_start_at_spot(c):
    """a path starts at the spot, has one point per step more than the number of steps, and stays positive, whatever the random numbers; without volatility it grows at exactly the drift"""
    import math
    kw, N = {}, c.choice("N", [1, 2, 5])
    s0 = c.real("s0", gt=0, rng=(1, 1000))
    mu, t = c.real("mu", rng=(-.5, .5), log=False), c.real("t", gt=0, rng=(.1, 3))
    quiet = c.choice("quiet", [False, True]) and not c.symbolic
    sig = 0 if quiet else c.real("sig", gt=0, rng=(.05, 1))
    if c.symbolic:                      # datetime arithmetic is not interpreted (see generated_frames, bounded)
        c.setattr(c.const(PG), "_datetime_r", c.func(lambda *a: None, "_datetime_r"))
    g = c.call(PG, mu=mu, sig=sig, s0=s0, time=t, N=N)
    for f in ("path", "__call__"):
        v = list(c.items(c.meth(g, f)))
        c.ensure("points", len(v) == N + 1)
        c.ensure("start", c.eq(v[0], s0))
        c.ensure("positive", c.And(*[x > 0 for x in v]))
        if quiet:
            for i, x in enumerate(v):
                c.ensure("drift", c.eq(x, s0 * math.exp(mu * t * i / N)))
    tt = list(c.items(c.attr(g, "times")))
    c.ensure("times", len(tt) == N + 1 and c.And(*[c.eq(x, t * i / N) for i, x in enumerate(tt)]))


@contract("H02", functions=[PG + ".path", PG + ".__post_init__"], samples=100)
def steps_have_the_parameters_asked_for(c):
    """the random steps are drawn, one per step, with the drift and volatility of the parameters over the length of one step"""
    N = c.choice("N", [1, 2, 5])
    mu, t, sig = c.real("mu", rng=(-.5, .5), log=False), c.real("t", gt=0, rng=(.1, 3)), c.real("sig", gt=0, rng=(.05, 1))
    s0 = c.real("s0", gt=0, rng=(1, 1000))
    inc = [c.real(f"inc{i}", gt=0, rng=(.5, 2)) for i in range(N)]
    if c.symbolic:
        c.setattr(c.const(PG), "_datetime_r", c.func(lambda *a: None, "_datetime_r"))
    asked = []

    def lognormal(mean=0, sigma=1, size=None):
        asked.append((mean, sigma, size))
        return c.call("numpy:array", c.lift(list(inc)))

    R = c.const("numpy:random")
    old = c.attr(R, "default_rng")
    c.setattr(R, "default_rng", c.func(lambda *a: c.record(lognormal=c.func(lognormal, "lognormal")), "default_rng"))
    try:
        v = list(c.items(c.meth(c.call(PG, mu=mu, sig=sig, s0=s0, time=t, N=N), "path")))
    finally:
        c.setattr(R, "default_rng", old)
    c.ensure("drawn once", len(asked) == 1)
    mean, sigma, size = asked[0]
    c.ensure("one per step", c.eq(size, N))
    c.ensure("drift", c.eq(mean, (mu - sig * sig / 2) * t / N))
    c.ensure("volatility", c.And(sigma > 0, c.eq(sigma * sigma, sig * sig * t / N)))
    want = s0
    for x, d in zip(v, [1] + inc):
        want = want * d
        c.ensure("compounded", c.eq(x, want))


@contract("H02", functions=[PG + ".pathdf", PG + ".vec2ar", PG + "._datetime_r", PG + ".path"], samples=60, kind="bounded")
def generated_frames(c):
    """frames of paths: one dated row per step, one column per path under the name asked for; log returns have the mean and variance of the parameters"""
    import math
    import datetime
    N, k = c.choice("N", [1, 3, 2000]), c.choice("k", [1, 3])
    sig, mu, t = c.real("sig", gt=0, rng=(.05, 1)), c.real("mu", rng=(-.5, .5), log=False), c.real("t", gt=0, rng=(.1, 3))
    st = c.choice("start", [None, (2021, 3, 4), datetime.datetime(2022, 5, 6)])
    cn = c.choice("name", [None, "x{ix}", "y{ix:02d}{sig100}"])
    g = c.call(PG, mu=mu, sig=sig, time=t, N=N, startdt=st, s0=50, **({} if cn is None else {"colname": cn}))
    d0 = st if isinstance(st, datetime.datetime) else datetime.datetime(*(st or (2020, 1, 1)))
    over = c.choice("override", [None, "z{ix}"])
    df = c.meth(g, "pathdf", numpaths=k, **({} if over is None else {"colname": over}))
    fmt = over or cn or "p{sig100:03d}-{mu100:02d}-{ix:03d}"
    c.ensure("columns", list(df.columns) == [fmt.format(sig100=int(sig * 100), mu100=int(mu * 100), ix=i) for i in range(k)])
    c.ensure("rows", len(df) == N + 1 and df.index[0] == d0 and abs((df.index[-1] - d0).total_seconds() - t * 365.25 * 86400) < 1 + N * 1e-5)
    c.ensure("start", all(abs(x - 50) < 1e-9 for x in df.iloc[0]))
    if N == 2000:
        lg = [math.log(b / a) for col in df.columns for a, b in zip(list(df[col]), list(df[col])[1:])]
        n = len(lg)
        m = sum(lg) / n
        v = sum((x - m) ** 2 for x in lg) / n
        dt = t / N
        c.ensure("drift", abs(m - (mu - sig * sig / 2) * dt) < 6 * sig * math.sqrt(dt / n))
        c.ensure("volatility", abs(v / (sig * sig * dt) - 1) < 6 * math.sqrt(2 / n))
    c.ensure("dates are complete", c.try_meth(g, "_datetime_r", (2020, 1)).raised("ValueError"))


@contract("H02", functions=[PI + ".interpolate", PI + ".interpolate_segment", PI + ".estimate_vol", PI + ".estimate_vol_np", PI + ".Timedelta", PI + ".days", PI + ".hours", PI + ".minutes"], samples=80, kind="bounded")
def interpolation_keeps_the_path(c):
    """an interpolated path contains every point of the original at its time, in order, with the asked number of points in between; the volatility estimate is the annualised deviation of the (log) steps"""
    import math
    import pandas
    n = c.choice("n", [2, 3, 6])
    vs = [c.real(f"v{i}", gt=0, rng=(50, 150)) for i in range(n)]
    gap = [c.choice(f"gap{i}", [1, 1, 2, .5]) for i in range(n - 1)]
    ts = [pandas.Timestamp("2020-01-01")]
    for x in gap:
        ts.append(ts[-1] + pandas.Timedelta(days=x))
    s = pandas.Series(vs, index=ts)
    unit, q = c.choice("period", [("hours", 1), ("hours", 7), ("minutes", 90), ("days", 1), ("days", .4), ("days", 3)])
    per = c.call(PI + "." + unit, q)
    c.ensure("periods", per == pandas.Timedelta(**{unit: q}) and c.call(PI + ".Timedelta", **{unit: q}) == per)
    sig = c.choice("sig", [0, .01, None]) if n > 2 else c.choice("sig", [0, .01])
    kw = {} if sig is None else {"sig": sig}
    if c.choice("off", [False, False, False, True]):
        c.ensure("switched off", c.call(PI + ".interpolate", s, per, enable=False, **kw) is s)
        return
    r = c.call(PI + ".interpolate", s, per, **kw)
    exp, k = [], []
    for i in range(n - 1):
        td = ts[i + 1] - ts[i]
        m = 1 if per > td else int(round(td / per, 0))
        k.append(len(exp))
        for j in range(m):
            exp.append((ts[i] + j * (td / m), vs[i] + (vs[i + 1] - vs[i]) * j / m))
    k.append(len(exp))
    exp.append((ts[-1], vs[-1]))
    c.ensure("number of points", len(r) == len(exp))
    c.ensure("times", all(abs((a - b[0]).total_seconds()) < 1e-3 for a, b in zip(r.index, exp)))
    c.ensure("the original points", all(c.eq(r.iloc[i], vs[j]) for j, i in enumerate(k)))
    if sig == 0:
        c.ensure("straight in between", all(c.eq(a, b[1]) for a, b in zip(r, exp)))
    if n > 2:
        sd, lg = c.call(PI + ".estimate_vol", s)
        yrs = sum(gap) / 365.25
        for got, f in ((sd, lambda x: x), (lg, math.log)):
            d = [f(b) - f(a) for a, b in zip(vs, vs[1:])]
            m = sum(d) / len(d)
            c.ensure("volatility", c.eq(got, math.sqrt(sum((x - m) ** 2 for x in d) / len(d)) / math.sqrt(yrs / (n - 1)), tol=1e-6))


@contract("H02", functions=[PD + "tknpair"], samples=60)
def token_pairs_from_names(c):
    """the tokens of a slashpair, in order or inverted; anything else is risk against cash"""
    name = c.choice("name", ["ETH/USDC", " ETH / USDC ", "ETHUSDC", "A/B/C", ""])
    inv = c.choice("invert", [None, False, True])
    r = tuple(c.items(c.call(PD + "tknpair", name, *(() if inv is None else (inv,)))))
    e = ("ETH", "USDC") if name.count("/") == 1 else ("RSK", "CSH")
    c.ensure("tokens", r == (e[::-1] if inv else e))


@contract("H02", functions=[PD + "pdread", PD + "pdcols", PD + "pathtime_yrs", PD + "pathtime_days", PD + "pathtime", "carbon.helpers.fls:fsave", "carbon.helpers.fls:fload"], samples=80, kind="bounded")
def files_are_read_as_asked(c):
    """reading a price file returns the column and window asked for, inverted if asked for; what is saved is what is loaded"""
    import os
    import shutil
    import tempfile
    import pandas
    d = tempfile.mkdtemp(prefix="pyvc_h02_")
    try:
        n = c.choice("n", [2, 5, 11])
        ix = pandas.date_range("2021-01-01", periods=n, freq="D")
        df = pandas.DataFrame({"ETH/USDC": [c.real(f"a{i}", gt=0, rng=(1, 9)) for i in range(n)], "X": [1.0 * i for i in range(n)]}, index=ix)
        fn = os.path.join(d, "f.pickle")
        df.to_pickle(fn)
        kw, lo, hi, keep = {}, ix[0], ix[-1], df
        if c.choice("min", [False, True]):
            keep = df[df.index >= ix[1]]
            kw["min_dt"] = ix[1]
            lo = ix[1]
        start = c.choice("start", [None, "ts", "early", "pc"])
        if start == "ts":
            kw["from_ts"] = "2021-01-02"
            lo = max(lo, ix[1])
        elif start == "early":
            kw["from_ts"] = "2020-01-02"
        elif start == "pc":
            kw["from_pc"] = .5
            lo = keep.index[0] + .5 * (keep.index[-1] - keep.index[0])
        end = c.choice("end", [None, "days", "pc"])
        if end == "days":
            kw["period_days"] = 3
            hi = lo + 3 * pandas.Timedelta(days=1)
        elif end == "pc":
            kw["period_pc"] = .25
            hi = lo + .25 * (keep.index[-1] - keep.index[0])
        w = df[(df.index >= lo) & (df.index <= hi)]
        col = c.choice("col", [None, "ETH/USDC", 0, 1])
        inv, tk = c.choice("invert", [False, True]), c.choice("tkns", [False, True])
        if col == 1 and inv:
            inv = False
        out = c.try_(PD + "pdread", fn, col, invert=inv, tkns=tk, **kw)
        if col is None and inv:
            c.ensure("a frame is not inverted", out.raised("ValueError"))
        else:
            c.ensure("read", out.ok)
            got = out.value
            if col is None:
                c.ensure("frame", got.equals(w))
            else:
                if tk:
                    got, names = got
                    e = ("ETH", "USDC") if col == "ETH/USDC" else ("RSK", "CSH")
                    c.ensure("tokens", names == (e[::-1] if inv else e))
                x = w[col] if isinstance(col, str) else w.iloc[:, col]
                c.ensure("window", list(got.index) == list(x.index))
                c.ensure("values", all(c.eq(a, 1 / b if inv else b) for a, b in zip(got, x)))
        c.ensure("ends are given once", c.try_(PD + "pdread", fn, period_days=1, period_pc=.1).raised("ValueError") and c.try_(PD + "pdread", fn, from_ts="2021-01-02", from_pc=.1).raised("ValueError")
                 and c.try_(PD + "pdread", fn, datacol=1.5).raised("ValueError"))
        c.ensure("columns", list(c.call(PD + "pdcols", fn)) == ["ETH/USDC", "X"])
        s = df["X"]
        c.ensure("durations", c.eq(c.call(PD + "pathtime_days", s), n - 1) and c.eq(c.call(PD + "pathtime_yrs", s), (n - 1) / 365.25) and c.eq(c.call(PD + "pathtime", s), (n - 1) / 365.25))
        F = "carbon.helpers.fls:"
        how = c.choice("how", ["text", "binary", "json", "gz json", "wrapped"])
        data = {"text": "a\nbé", "binary": b"\x00\xff", "json": {"a": [1, None, "x"]}, "gz json": [1, {"b": 2.5}], "wrapped": "y"}[how]
        k2 = {"text": {}, "binary": {"binary": True}, "json": {"json": True}, "gz json": {"json": True, "compressed": True}, "wrapped": {}}[how]
        p = c.choice("path", [None, d])
        name = "g.dat" if p else os.path.join(d, "g.dat")
        c.call(F + "fsave", data, name, p, **k2, **({"wrapper": "<{}>"} if how == "wrapped" else {}))
        c.ensure("what is saved is loaded", c.call(F + "fload", name, p, **k2) == ("<y>" if how == "wrapped" else data))
        c.ensure("where it was saved", os.listdir(d).count("g.dat") == 1)
    finally:
        shutil.rmtree(d, ignore_errors=True)
