"""Contracts for the arbitrage graphs (carbon/tools/arbgraphs.py): G01 amounts and edges, G02 graphs."""
from pyvc.api import contract

G = "carbon.tools.arbgraphs:"
A, N, E, AG = G + "Amount", G + "Node", G + "Edge", G + "ArbGraph"
EPS = 1e-9
TK = ["ETH", "USDC", "LINK", "BNT"]


def amt(c, name, lo=None):
    return c.real(name, gt=0, rng=(1e-3, 1e4))


def edge(c, n1, n2, name, kind="amount", inverse=False):
    """an amount edge, or a connection edge, with arbitrary positive amounts (price, weight)"""
    if kind == "amount":
        a, b = amt(c, name + "i"), amt(c, name + "o")
        return c.call(E, n1, a, n2, b, inverse=inverse), a, b
    p, w = amt(c, name + "p"), amt(c, name + "w")
    return c.call(E + ".connection_edge", n1, n2, price=p, weight=w, inverse=inverse), p, w


def graph(c, hops, tokens=TK):
    """graph with amount edges hops = [(token in, token out), ...]; returns the graph and the amounts"""
    g = c.call(AG)
    ios = []
    for k, (i, o) in enumerate(hops):
        a, b = amt(c, f"a{k}"), amt(c, f"b{k}")
        c.meth(g, "add_edge", i, a, o, b)
        ios.append((a, b))
    return g, ios


def state_of(c, n):
    return c.attr(c.attr(n, "state"), "amount")


def remaining(c, e):
    return c.attr(c.attr(e, "state"), "amount_in_remaining")


# ------------------------------------------------------------------------------------------------ G01
@contract("G01", functions=[A + ".__add__", A + ".__sub__", A + ".__mul__", A + ".__truediv__", A + ".__neg__", A + ".__pos__", A + ".__abs__",
                            A + ".__rmul__", A + ".__radd__", A + ".__rsub__", A + ".__copy__", A + ".tkn"], samples=150)
def amounts_follow_arithmetic(c):
    """sums, differences, multiples and ratios of amounts of one token are those of the numbers; a mix of tokens, or of amounts and numbers, is refused"""
    n, m = c.call(N, "ETH"), c.call(N, "ETH")        # two different nodes, even if of the same name
    x, y, k = c.real("x", rng=(-100, 100)), c.real("y", rng=(-100, 100)), c.real("k", rng=(-5, 5))
    a, b, o = c.call(A, x, n), c.call(A, y, n), c.call(A, y, m)

    def val(nm, r, v):
        c.ensure(nm + " value", c.eq(c.attr(r, "amount"), v))
        c.ensure(nm + " node", c.same(c.attr(r, "node"), n) and c.same(c.attr(r, "tkn"), n))
    val("sum", c.op("+", a, b).value, x + y)
    val("difference", c.op("-", a, b).value, x - y)
    val("multiple", c.op("*", a, k).value, x * k)
    val("multiple from left", c.op("*", k, a).value, x * k)
    val("negative", c.meth(a, "__neg__"), -x)
    val("positive", c.meth(a, "__pos__"), x)
    val("absolute", c.builtin("abs", a), c.If(x < 0, -x, x))
    val("copy", c.meth(a, "__copy__"), x)
    if c.split(c.Not(c.eq(k, 0))):
        val("quotient", c.op("/", a, k).value, c.div(x, k))
    if c.split(c.Not(c.eq(y, 0))):
        c.ensure("ratio", c.eq(c.op("/", a, b).value, c.div(x, y)))
        c.ensure("ratio across tokens refused", c.op("/", a, o).raised("ValueError"))
    for s in "+-":
        c.ensure(f"{s} across tokens refused", c.op(s, a, o).raised("ValueError"))
        c.ensure(f"{s} number refused", c.And(c.op(s, a, k).raised("ValueError"), c.op(s, k, a).raised("ValueError")))
    c.ensure("product of amounts refused", c.op("*", a, b).raised("ValueError"))
    c.ensure("operands untouched", c.And(c.eq(c.attr(a, "amount"), x), c.eq(c.attr(b, "amount"), y)))


@contract("G01", functions=[A + ".__lt__", A + ".__le__", A + ".__gt__", A + ".__ge__"], samples=100)
def amounts_compare_by_value_within_a_token(c):
    """amounts of one token compare as their numbers; across tokens, or with numbers, a comparison is refused"""
    n, m = c.call(N, "ETH"), c.call(N, "USDC")
    x, y = c.real("x", rng=(-3, 3)), c.real("y", rng=(-3, 3))
    if c.bool("same"):
        y = x
    a, b, o = c.call(A, x, n), c.call(A, y, n), c.call(A, y, m)
    for s, v in (("<", x < y), ("<=", x <= y), (">", x > y), (">=", x >= y)):
        c.ensure(f"{s}", c.pyeq(c.op(s, a, b).value, v))
        c.ensure(f"{s} across tokens refused", c.op(s, a, o).raised("ValueError"))
        c.ensure(f"{s} number refused", c.op(s, a, x).raised("ValueError"))


@contract("G01", functions=[A + ".__round__", A + ".__floor__", A + ".__ceil__", A + ".__trunc__"], samples=100)
def amounts_round_as_their_numbers(c):
    n = c.call(N, "ETH")
    x = c.real("x", rng=(-100, 100))
    a = c.call(A, x, n)
    f, k = c.attr(c.meth(a, "__floor__"), "amount"), c.attr(c.meth(a, "__ceil__"), "amount")
    c.ensure("floor", c.eq(f, c.floor(x)))
    c.ensure("ceil", c.eq(k, c.ceil(x)))
    t = c.attr(c.meth(a, "__trunc__"), "amount")
    c.ensure("trunc", c.eq(t, c.If(x >= 0, c.floor(x), c.ceil(x))))
    r = c.attr(c.meth(a, "__round__", 2), "amount")
    c.ensure("round", c.And(c.le(r - x, 0.005 + 1e-12), c.le(x - r, 0.005 + 1e-12)))
    c.ensure("round is on the grid", c.eq(c.floor(r * 100 + 0.5), r * 100))


@contract("G01", functions=[E + ".price", E + ".price_outperin", E + ".reverse", E + ".pair", E + ".convention", E + ".connection_edge",
                            E + ".edgetype", E + ".is_amounttype", E + ".convention_outperin"], samples=150)
def price_and_its_conventions(c):
    """the price is out per in, or in per out if inverse; the two conventions are reciprocal; reversing an edge keeps the quoted price and inverts out-per-in"""
    n1, n2 = c.call(N, "ETH"), c.call(N, "USDC")
    kind = c.choice("kind", ["amount", "connection"])
    inv = c.bool("inverse")
    inv = bool(inv) if not c.symbolic else c.split(inv)
    e, a, b = edge(c, n1, n2, "e", kind, inv)
    opi = c.div(b, a) if kind == "amount" else (c.div(1, a) if inv else a)
    c.ensure("type", c.attr(e, "edgetype") == kind and c.attr(e, "is_amounttype") is (kind == "amount"))
    c.ensure("out per in", c.eq(c.attr(e, "p_outperin"), opi))
    c.ensure("quoted", c.eq(c.meth(e, "price"), c.div(1, opi) if inv else opi))
    c.ensure("alias", c.eq(c.meth(e, "p"), c.meth(e, "price")))
    c.ensure("out per in asked for", c.eq(c.meth(e, "price", inverse=False), opi))
    c.ensure("in per out asked for", c.eq(c.meth(e, "price", inverse=True) * opi, 1))
    c.ensure("pair", c.meth(e, "pair") == ("USDC/ETH" if inv else "ETH/USDC") and c.meth(e, "pair", inverse=not inv) == ("ETH/USDC" if inv else "USDC/ETH"))
    c.ensure("convention", c.meth(e, "convention") == ("ETH per USDC" if inv else "USDC per ETH"))
    c.ensure("convention out per in", c.meth(e, "convention_outperin") == "USDC per ETH")
    r = c.meth(e, "R")
    c.ensure("reverse nodes", c.same(c.attr(r, "node_in"), n2) and c.same(c.attr(r, "node_out"), n1) and c.attr(r, "inverse") is (not inv))
    c.ensure("reverse amounts", c.And(c.eq(c.attr(r, "amount_in"), c.attr(e, "amount_out")), c.eq(c.attr(r, "amount_out"), c.attr(e, "amount_in"))))
    c.ensure("reverse price quoted alike", c.eq(c.meth(r, "price"), c.meth(e, "price")))
    c.ensure("reverse out per in", c.eq(c.attr(r, "p_outperin") * opi, 1))
    c.ensure("reverse pair", c.meth(r, "pair") == c.meth(e, "pair"))


@contract("G01", functions=[E + ".__add__", E + ".__radd__", E + ".__mul__", E + ".__rmul__", E + ".duplicate"], samples=150)
def edges_combine(c):
    """adding edges adds the amounts (so the out-per-in price is the weighted average), multiplying scales both amounts and keeps the price"""
    n1, n2 = c.call(N, "ETH"), c.call(N, "USDC")
    kind = c.choice("kind", ["amount", "connection"])
    inv = c.choice("inverse", [False, True])
    e, _, _ = edge(c, n1, n2, "e", kind, inv)
    f, _, _ = edge(c, n1, n2, "f", kind, inv)
    k = c.real("k", gt=0, rng=(0.01, 100))

    def both(x):
        return c.attr(x, "amount_in"), c.attr(x, "amount_out")

    def chk(nm, r, ai, ao):
        ri, ro = both(r)
        c.ensure(nm, c.And(c.eq(ri, ai), c.eq(ro, ao)))
        c.ensure(nm + " nodes", c.same(c.attr(r, "node_in"), n1) and c.same(c.attr(r, "node_out"), n2) and c.attr(r, "inverse") is inv)
        if kind == "amount":
            c.ensure(nm + " has its capacity", c.eq(remaining(c, r), ri))
    (ei, eo), (fi, fo) = both(e), both(f)
    chk("sum", c.op("+", e, f).value, ei + fi, eo + fo)
    chk("multiple", c.op("*", e, k).value, ei * k, eo * k)
    chk("multiple from left", c.op("*", k, e).value, ei * k, eo * k)
    d = c.op("+", e, 0).value
    chk("duplicate", d, ei, eo)
    c.ensure("duplicate is another edge", not c.same(d, e) and c.attr(d, "ix") is None)
    chk("zero plus", c.op("+", 0, e).value, ei, eo)
    chk("list sum", c.builtin("sum", c.lift([e, f])), ei + fi, eo + fo)
    chk("operand e", e, ei, eo)
    chk("operand f", f, fi, fo)
    p, q, s = c.attr(e, "p_outperin"), c.attr(f, "p_outperin"), c.attr(c.op("+", e, f).value, "p_outperin")
    c.ensure("weighted average", c.eq(s * (ei + fi), p * ei + q * fi))
    c.ensure("wrong way refused", c.op("+", e, c.meth(f, "reverse")).raised())
    c.ensure("other type refused", c.op("+", e, edge(c, n1, n2, "g", "connection" if kind == "amount" else "amount", inv)[0]).raised())
    c.ensure("non-positive multiple refused", c.op("*", e, 1 - k if c.split(k >= 1) else -k).raised())


@contract("G01", functions=[E + ".transport", E + ".reset_state", E + ".has_capacity", E + ".__post_init__", N + ".reset_state", G + "TrackedStateFloat.reset",
                            G + "TrackedStateFloat.set"], samples=300)
def transport_through_an_edge(c):
    """what comes out is in proportion to the amounts of the edge; recorded transports move it from the capacity and the input node to the output node;
    a transport that is refused changes nothing"""
    n1, n2 = c.call(N, "ETH"), c.call(N, "USDC")
    e, a, b = edge(c, n1, n2, "e")
    have, got, rem = c.real("have", lo=0, rng=(0.1, 2e4)), c.real("got", lo=0, rng=(0.1, 1e4)), c.real("rem", lo=0, rng=(0.1, 1e4))
    c.meth(n1, "reset_state", have)
    c.meth(n2, "reset_state", got)
    c.ensure("states are set", c.And(c.eq(state_of(c, n1), have), c.eq(state_of(c, n2), got)))
    c.ensure("full at first", c.eq(remaining(c, e), a))
    c.meth(e, "reset_state", rem)
    c.ensure("capacity is set", c.eq(remaining(c, e), rem))
    c.ensure("capacity left", c.pyeq(c.attr(e, "has_capacity"), rem > EPS))
    how = c.choice("how", ["number", "amount", "full", "wrong"])
    rec, raiseit = c.choice("record", [False, True]), c.choice("raise", [True, False])
    d = a if how == "full" else c.real("d", rng=(0.1, 1e4), lo=-10)
    arg = None if how == "full" else d if how == "number" else c.call(A, d, n1 if how == "amount" else n2)
    before = c.snapshot(e, n1, n2)
    r = c.try_meth(e, "transport", arg, record=rec, raiseonerror=raiseit)
    if how == "wrong":
        c.ensure("other token refused", r.raised())
    if r.raised():
        c.ensure("refusal changes nothing", c.unchanged(before, c.snapshot(e, n1, n2)))
        c.ensure("only for a reason", c.Or(how == "wrong", d > a + EPS * .999, d < -EPS * .999,
                                          c.And(rec and raiseit, c.Or(d > rem + EPS * .999, d > have + EPS * .999))))
        return
    out = c.attr(r.value, "amount")
    c.ensure("output token", c.same(c.attr(r.value, "node"), n2))
    c.ensure("in proportion", c.eq(out * a, d * b))
    c.ensure("within capacity", c.And(c.le(d, a + EPS * 1.001), d >= -EPS * 1.001))
    if not rec:
        c.ensure("nothing recorded", c.unchanged(before, c.snapshot(e, n1, n2)))
        return
    if raiseit:
        c.ensure("within what remains", c.le(d, rem + EPS * 1.001))
        c.ensure("within what the node has", c.le(d, have + EPS * 1.001))
    c.ensure("capacity used", c.eq(remaining(c, e), rem - d, scale=rem + d))
    c.ensure("taken from the input node", c.eq(state_of(c, n1), have - d, scale=have + d))
    c.ensure("given to the output node", c.eq(state_of(c, n2), got + out))
    c.meth(e, "reset_state")
    c.ensure("reset", c.eq(remaining(c, e), a))


@contract("G01", functions=[E + ".transport", E + ".connection_edge"], samples=60)
def transport_through_a_connection(c):
    """a connection has no capacity: any amount is converted at its price; its transports cannot be recorded"""
    n1, n2 = c.call(N, "ETH"), c.call(N, "USDC")
    inv = c.choice("inverse", [False, True])
    e, p, w = edge(c, n1, n2, "e", "connection", inv)
    d = c.real("d", rng=(-1e4, 1e4))
    opi = c.div(1, p) if inv else p
    c.ensure("converted", c.eq(c.attr(c.meth(e, "transport", d), "amount"), d * opi))
    c.ensure("unit by default", c.eq(c.attr(c.meth(e, "transport"), "amount"), opi))
    c.ensure("record refused", c.try_meth(e, "transport", d, record=True).raised("ValueError"))
    c.ensure("bad weight refused", c.try_(E + ".connection_edge", n1, n2, price=p, weight=-w).raised())


@contract("G01", functions=[G + "TrackedStateFloat.reset", G + "TrackedStateFloat.set", N + ".reset_state", N + ".create_node_list", N + ".__eq__"], samples=60)
def tracked_state(c):
    """a tracked number keeps every value it had since the last reset"""
    x, y, z = c.real("x", rng=(-5, 5)), c.real("y", rng=(-5, 5)), c.real("z", rng=(-5, 5))
    t = c.call(G + "TrackedStateFloat", x)
    c.ensure("returns itself", c.same(c.meth(t, "set", y), t))
    h = c.items(c.attr(t, "history"))
    c.ensure("history", len(h) == 2 and c.And(c.eq(h[0], x), c.eq(h[1], y), c.eq(c.attr(t, "value"), y)))
    c.meth(t, "reset", z)
    h = c.items(c.attr(t, "history"))
    c.ensure("reset history", len(h) == 1 and c.And(c.eq(h[0], z), c.eq(c.attr(t, "value"), z)))
    c.meth(t, "set", x)
    c.meth(t, "reset")
    h = c.items(c.attr(t, "history"))
    c.ensure("reset without value", len(h) == 1 and c.And(c.eq(h[0], x), c.eq(c.attr(t, "value"), x)))
    ns = c.items(c.call(N + ".create_node_list", "USDC, LINK,ETH"))
    c.ensure("node list", [c.attr(n, "tkn") for n in ns] == ["USDC", "LINK", "ETH"] and [c.attr(n, "ix") for n in ns] == [0, 1, 2])
    n = ns[0]
    c.setattr(c.attr(n, "state"), "amount", x)
    c.setattr(c.attr(n, "state"), "amount", y)
    h = c.items(c.attr(c.attr(c.attr(n, "state"), "amount_"), "history"))
    c.ensure("node history", len(h) == 3 and c.And(c.eq(h[0], 0), c.eq(h[1], x), c.eq(h[2], y)))
    c.meth(n, "reset_state")
    c.ensure("node reset", c.eq(state_of(c, n), 0))
    c.ensure("nodes equal only to themselves", not c.pyeq(n, c.call(N, "USDC")) and c.pyeq(n, n))


# ------------------------------------------------------------------------------------------------ G02
@contract("G02", functions=[AG + ".add_edge", AG + ".add_edge_dxdy", AG + ".add_node", AG + ".add_node_obj", AG + ".add_edge_obj", AG + ".node_by_tkn",
                            AG + ".from_ccdxdy", AG + ".from_r"], samples=200)
def edges_follow_the_signs(c):
    """a trade (dx, dy) becomes an edge from the token that goes in (positive) to the one that comes out, with positive amounts; equal signs are refused"""
    dx, dy = c.real("dx", rng=(-10, 10)), c.real("dy", rng=(-10, 10))
    if c.bool("opposite") if not c.symbolic else c.split(c.bool("opposite")):
        dy = c.If(dx * dy > 0, -dy, dy) if c.symbolic else (-dy if dx * dy > 0 else dy)
    g = c.call(AG)
    how = c.choice("how", ["dxdy", "ccdxdy", "r"])
    cc = c.lift([c.record(tknx="ETH", tkny="USDC", cid="c1")])
    if how == "dxdy":
        r = c.try_meth(g, "add_edge_dxdy", "ETH", dx, "USDC", dy, uid="c1", inverse=True)
    elif how == "ccdxdy":
        r = c.try_(AG + ".from_ccdxdy", cc, c.lift([dx]), c.lift([dy]))
        g = r.value if not r.raised() else None
    else:
        r = c.try_(AG + ".from_r", c.record(curves=cc, dxvalues=c.lift([dx]), dyvalues=c.lift([dy])))
        g = r.value if not r.raised() else None
    c.ensure("refused iff equal signs", c.pyeq(r.raised("ValueError"), c.If(dx * dy > 1e-8, True, False)) if c.symbolic
             else r.raised("ValueError") == (dx * dy > 1e-8))
    if r.raised():
        return
    es = c.items(c.attr(g, "edges"))
    if c.split(c.Not(dx * dy < 0)):
        c.ensure("nothing added", len(es) == 0)
        return
    c.ensure("one edge", len(es) == 1)
    e = es[0]
    ti, to = c.attr(e, "tkn_in"), c.attr(e, "tkn_out")
    c.ensure("direction", (c.And(dx > 0, ti == "ETH") if ti == "ETH" else dx < 0))
    c.ensure("tokens", {ti, to} == {"ETH", "USDC"})
    c.ensure("amount in", c.eq(c.attr(e, "amount_in"), c.If(dx > 0, dx, dy)))
    c.ensure("amount out", c.eq(c.attr(e, "amount_out"), c.If(dx > 0, -dy, -dx)))
    c.ensure("id", c.attr(e, "uid") == "c1" and c.attr(e, "ix") == 0)
    c.ensure("convention kept", c.attr(e, "inverse") is (how == "dxdy"))
    c.ensure("nodes are those of the graph", c.same(c.meth(g, "node_by_tkn", ti), c.attr(e, "node_in")) and
             c.same(c.meth(g, "node_by_tkn", to), c.attr(e, "node_out")) and len(c.items(c.attr(g, "nodes"))) == 2)


@contract("G02", functions=[AG + ".add_edge_connectiontype", AG + ".add_edges_cpc", AG + ".from_cc", AG + ".ptransport", AG + ".add_edge_obj"], samples=150)
def connections_and_prices_along_paths(c):
    """a connection comes with its reverse at the reciprocal price; the price along a path is the product of the (mean) prices of its steps, so a path and
    its reverse multiply to one; graph edges are all of one type"""
    p, q, w = amt(c, "p"), amt(c, "q"), amt(c, "w")
    inv = c.choice("inverse", [False, True])
    g = c.call(AG)
    how = c.choice("how", ["price", "outperin", "curve"])
    if how == "price":
        c.meth(g, "add_edge_ct", "ETH", "USDC", price=p, inverse=inv, weight=w)
        opi = c.div(1, p) if inv else p
    elif how == "outperin":
        c.meth(g, "add_edge_ct", "ETH", "USDC", price_outperin=p, weight=w)
        opi = p
    else:
        one = c.record(tknb="ETH", tknq="USDC", p=p, cid="c1")
        if inv:
            g = c.call(AG + ".from_cc", c.record(curves=c.lift([one])))
        else:
            c.meth(g, "add_edges_cpc", c.lift([one]))
        opi = p
    c.meth(g, "add_edge_ct", "USDC", "LINK", price=q)
    es = c.items(c.attr(g, "edges"))
    c.ensure("edges", [(c.attr(e, "tkn_in"), c.attr(e, "tkn_out"), c.attr(e, "ix")) for e in es] ==
             [("ETH", "USDC", 0), ("USDC", "ETH", 1), ("USDC", "LINK", 2), ("LINK", "USDC", 3)])
    c.ensure("forward", c.eq(c.attr(es[0], "p_outperin"), opi))
    c.ensure("backward", c.eq(c.attr(es[1], "p_outperin") * opi, 1))
    c.ensure("quoted alike", c.eq(c.meth(es[0], "price"), c.meth(es[1], "price")) if how == "price" else True)
    eth, usdc, link = (c.meth(g, "node_by_tkn", t) for t in ("ETH", "USDC", "LINK"))
    r = c.meth(g, "ptransport", c.call(G + "Path", c.lift([eth, usdc, link])))
    b = c.meth(g, "ptransport", c.call(G + "Path", c.lift([link, usdc, eth])))
    m = c.attr(r, "multiplier")
    c.ensure("product", c.eq(m, opi * q))
    c.ensure("prices", [len(c.items(c.attr(r, k))) for k in ("prices", "numedges")] == [2, 2] and
             c.And(c.eq(c.items(c.attr(r, "prices"))[0], opi), c.eq(c.items(c.attr(r, "prices"))[1], q)))
    c.ensure("there and back", c.eq(m * c.attr(b, "multiplier"), 1))
    cyc = c.meth(g, "ptransport", c.call(G + "Cycle", c.lift([eth, usdc])))
    c.ensure("cycle", c.eq(c.attr(cyc, "multiplier"), 1))
    p2 = amt(c, "p2")
    c.meth(g, "add_edge_ct", "ETH", "USDC", price=p2, symmetric=False)
    r = c.meth(g, "ptransport", c.call(G + "Path", c.lift([eth, usdc])))
    c.ensure("mean of parallel prices", c.items(c.attr(r, "numedges"))[0] == 2 and c.eq(c.attr(r, "multiplier") * 2, opi + p2))
    c.ensure("not symmetric", len(c.items(c.attr(g, "edges"))) == 5)
    before = len(c.items(c.attr(g, "edges")))
    c.ensure("amounts refused", c.try_meth(g, "add_edge", "ETH", p, "USDC", q).raised("ValueError") and len(c.items(c.attr(g, "edges"))) == before)


@contract("G02", functions=[AG + ".price", AG + ".shortest_path"], samples=60)
def price_between_tokens(c):
    """the price of a token in another one multiplies the prices along the path found, in itself it is one; either names or nodes are accepted"""
    p, q = amt(c, "p"), amt(c, "q")
    g = c.call(AG)
    c.meth(g, "add_edge_ct", "ETH", "USDC", price=p)
    c.meth(g, "add_edge_ct", "USDC", "LINK", price=q)
    node = {t: c.meth(g, "node_by_tkn", t) for t in ("ETH", "USDC", "LINK")}
    if c.symbolic:      # networkx is not interpreted: the path it finds between these nodes of a line is given
        idx = ["ETH", "USDC", "LINK"]

        def sp(a, b):
            i, j = idx.index(c.attr(a, "tkn")), idx.index(c.attr(b, "tkn"))
            return c.call(G + "Path", c.lift([node[t] for t in (idx[i:j + 1] if i < j else idx[j:i + 1][::-1])]))
        c.setattr(g, "shortest_path", c.func(sp, "shortest_path"))
    byname = c.choice("byname", [True, False])
    k = (lambda t: t) if byname else (lambda t: node[t])
    c.ensure("one step", c.eq(c.meth(g, "price", k("ETH"), k("USDC")), p))
    c.ensure("two steps", c.eq(c.meth(g, "price", k("ETH"), k("LINK")), p * q))
    c.ensure("back", c.eq(c.meth(g, "price", k("LINK"), k("ETH")) * p * q, 1))
    c.ensure("itself", c.eq(c.meth(g, "price", k("ETH"), k("ETH")), 1))
    u = c.items(c.meth(g, "price", k("ETH"), k("LINK"), with_units=True))
    c.ensure("units", u[1] == "LINK per ETH [ETH/LINK]" and c.eq(u[0], p * q))
    u = c.items(c.meth(g, "price", k("ETH"), k("ETH"), with_units=True))
    c.ensure("units of itself", u[1] == "ETH per ETH [ETH/ETH]" and c.eq(u[0], 1))


HOPS = [("ETH", "USDC"), ("ETH", "USDC"), ("USDC", "ETH"), ("USDC", "LINK")]


@contract("G02", functions=[AG + ".duplicate", E + "._replace_nodes", E + ".__radd__", AG + ".filter_edges"], samples=60)
def duplicates_conserve_amounts(c):
    """a duplicate shares no node or edge with the graph, keeps the quote conventions, and consolidates edges of one direction to their sum"""
    g = c.call(AG)
    ios = []
    for k, (i, o) in enumerate(HOPS):
        a, b = amt(c, f"a{k}"), amt(c, f"b{k}")
        c.meth(g, "add_edge", i, a, o, b, inverse=(k == 2), uid=f"u{k}")
        ios.append((a, b))
    cons = c.choice("consolidate", [True, False])
    before = c.snapshot(g)
    d = c.meth(g, "duplicate", consolidate=cons)
    c.ensure("original untouched", c.unchanged(before, c.snapshot(g)))
    es = c.items(c.attr(d, "edges"))
    got = [(c.attr(e, "tkn_in"), c.attr(e, "tkn_out"), c.attr(e, "inverse")) for e in es]
    amts = [(c.attr(e, "amount_in"), c.attr(e, "amount_out")) for e in es]
    if cons:
        want = {("ETH", "USDC", False): (ios[0][0] + ios[1][0], ios[0][1] + ios[1][1]), ("USDC", "ETH", True): ios[2], ("USDC", "LINK", False): ios[3]}
    else:
        want = None
        c.ensure("all edges", got == [(i, o, k == 2) for k, (i, o) in enumerate(HOPS)] and [c.attr(e, "uid") for e in es] == [f"u{k}" for k in range(4)])
        for k in range(len(es)):
            c.ensure(f"amounts {k}", c.And(c.eq(amts[k][0], ios[k][0]), c.eq(amts[k][1], ios[k][1])))
    if want is not None:
        c.ensure("consolidated edges", sorted(got) == sorted(want))
        for k, t in enumerate(got):
            if t in want:
                c.ensure(f"sums {t}", c.And(c.eq(amts[k][0], want[t][0]), c.eq(amts[k][1], want[t][1])))
    ns = c.items(c.attr(d, "nodes"))
    c.ensure("nodes", [c.attr(n, "tkn") for n in ns] == ["ETH", "USDC", "LINK"] and [c.attr(n, "ix") for n in ns] == [0, 1, 2])
    c.ensure("own nodes", not any(c.same(a, b) for a in ns for b in c.items(c.attr(g, "nodes"))))
    c.ensure("own edges", not any(c.same(a, b) for a in es for b in c.items(c.attr(g, "edges"))))
    c.ensure("linked to own nodes", all(c.same(c.attr(e, k), c.meth(d, "node_by_tkn", c.attr(c.attr(e, k), "tkn"))) for e in es for k in ("node_in", "node_out")))
    c.meth(d, "add_edge", "BNT", ios[0][0], "ETH", ios[0][1])
    c.ensure("can be extended", len(c.items(c.attr(d, "edges"))) == len(es) + 1 and len(c.items(c.attr(d, "nodes"))) == 4 and
             len(c.items(c.attr(g, "edges"))) == 4 and c.attr(c.meth(d, "node", 3), "tkn") == "BNT")


@contract("G02", functions=[AG + ".filter_edges", AG + ".fep", AG + ".has_capacity", AG + ".edge_by_ix", AG + ".node_by_ix"], samples=30)
def edges_are_found(c):
    """filter_edges returns exactly the edges with the given ends, in order"""
    g, ios = graph(c, HOPS)
    es = c.items(c.attr(g, "edges"))

    def ids(*a, **k):
        return [[i for i, x in enumerate(es) if c.same(x, e)][0] for e in c.items(c.meth(g, "filter_edges", *a, **k))]
    c.ensure("both ends", ids("ETH", "USDC") == [0, 1] and ids("USDC", "ETH") == [2] and ids("LINK", "USDC") == [])
    c.ensure("input", ids("USDC") == [2, 3] and ids(node_in="LINK") == [])
    c.ensure("output", ids(None, "USDC") == [0, 1] and ids(node_out="LINK") == [3])
    c.ensure("all", ids() == [0, 1, 2, 3])
    c.ensure("either end", ids(node="ETH") == [0, 1, 2] and ids(node="LINK") == [3])
    c.ensure("both ways", ids("ETH", "USDC", bothways=True) == [0, 1, 2] and ids("USDC", "ETH", bothways=True) == [2, 0, 1])
    c.ensure("both ways, each once", ids(node="ETH", bothways=True) == [0, 1, 2] and ids(bothways=True) == [0, 1, 2, 3] and
             ids("USDC", bothways=True) == [2, 3, 0, 1])
    c.ensure("pair", ids(pair="ETH/USDC") == [0, 1, 2] and ids(pair="ETH/USDC", bothways=False) == [0, 1])
    n = c.meth(g, "node_by_tkn", "ETH")
    c.ensure("node object", ids(n, "USDC") == [0, 1] and ids(node=n) == [0, 1, 2])
    c.ensure("by index", all(c.same(c.meth(g, "edge_by_ix", i), es[i]) for i in range(4)) and c.same(c.meth(g, "node_by_ix", 0), n))
    c.ensure("unknown token", c.try_meth(g, "filter_edges", "XXX", "ETH").raised("KeyError"))
    c.ensure("foreign node", c.try_meth(g, "node_by_tkn", c.call(N, "ETH")).raised())
    x = c.real("x", lo=0, rng=(1e-12, 1))
    for e in es[:3]:
        c.meth(e, "reset_state", x)
    c.ensure("capacity of a pair", c.pyeq(c.meth(g, "has_capacity", "ETH", "USDC"), x > EPS))
    c.ensure("capacity of the graph", c.pyeq(c.meth(g, "has_capacity"), c.Or(x > EPS, ios[3][0] > EPS)))
    c.meth(g, "reset_state")
    c.ensure("capacities restored", c.And(*[c.eq(remaining(c, e), ios[i][0]) for i, e in enumerate(es)]))


@contract("G02", functions=[AG + ".transport", E + ".transport"], samples=200)
def transport_is_shared_pro_rata(c):
    """a transport is shared among parallel edges by their remaining capacities; nothing is lost: what leaves the input node arrives in the edges, and what
    leaves the edges arrives at the output node; more than the remaining capacity is refused"""
    g, ios = graph(c, HOPS[:2])
    es = c.items(c.attr(g, "edges"))
    eth, usdc = c.meth(g, "node_by_tkn", "ETH"), c.meth(g, "node_by_tkn", "USDC")
    f = [c.real(f"f{k}", gt=0, lt=1, rng=(0.1, 0.99)) for k in range(2)]
    rem = [ios[k][0] * f[k] for k in range(2)]
    for k in range(2):
        c.meth(es[k], "reset_state", rem[k])
    d, have = c.real("d", gt=0, rng=(0.1, 2e4)), c.real("have", lo=0, rng=(0.1, 5e4))
    c.meth(eth, "reset_state", have)
    how = c.choice("how", ["number", "amount", "node", "wrong"])
    if how == "wrong":
        c.ensure("other token refused", c.try_meth(g, "transport", c.call(A, d, usdc), "ETH", "USDC").raised("ValueError"))
        c.ensure("no edge refused", c.try_meth(g, "transport", d, "USDC", "ETH").raised("ValueError"))
        c.ensure("nothing recorded", c.And(c.eq(state_of(c, eth), have), c.eq(state_of(c, usdc), 0), *[c.eq(remaining(c, es[k]), rem[k]) for k in range(2)]))
        return
    rec = c.choice("record", [True, False])
    arg = c.call(A, d, eth) if how == "amount" else d
    r = c.try_meth(g, "transport", arg, eth if how == "node" else "ETH", usdc if how == "node" else "USDC", record=rec)
    tot = rem[0] + rem[1]
    if r.raised():
        c.ensure("only without capacity", c.Or(d > tot * (1 - 1e-9), c.And(rec, d > have * (1 - 1e-9))))
        c.ensure("refused: nothing recorded", c.And(c.eq(state_of(c, eth), have, tol=1e-12), c.eq(state_of(c, usdc), 0, tol=1e-12),
                                                    *[c.eq(remaining(c, es[k]), rem[k], tol=1e-12) for k in range(2)]))
        return
    r = r.value
    if rec:
        c.ensure("at most the capacity", d * rem[0] <= (rem[0] + 2 * EPS) * tot)
    ai, ao = c.items(c.attr(r, "amounts_in")), c.items(c.attr(r, "amounts_out"))
    c.ensure("two parts", len(ai) == 2 and len(ao) == 2 and all(c.same(x, y) for x, y in zip(c.items(c.attr(r, "edges")), es)))
    for k in range(2):
        c.ensure(f"share {k}", c.eq(ai[k] * tot, d * rem[k]))
        c.ensure(f"out {k}", c.eq(ao[k] * ios[k][0], ai[k] * ios[k][1]))
    c.ensure("whole in", c.And(c.eq(c.attr(c.attr(r, "amount_in"), "amount"), d), c.eq(ai[0] + ai[1], d)))
    out = c.attr(c.attr(r, "amount_out"), "amount")
    c.ensure("whole out", c.eq(ao[0] + ao[1], out))
    if rec:
        c.ensure("taken", c.eq(state_of(c, eth), have - d, scale=have + d))
        c.ensure("given", c.eq(state_of(c, usdc), out))
        for k in range(2):
            c.ensure(f"capacity {k}", c.eq(remaining(c, es[k]), rem[k] - ai[k], scale=rem[k] + ai[k]))
    else:
        c.ensure("nothing recorded", c.And(c.eq(state_of(c, eth), have), c.eq(state_of(c, usdc), 0), *[c.eq(remaining(c, es[k]), rem[k]) for k in range(2)]))


CYC = {"two": [("ETH", "USDC"), ("USDC", "ETH")], "parallel": [("ETH", "USDC"), ("ETH", "USDC"), ("USDC", "ETH")],
       "three": [("ETH", "USDC"), ("USDC", "LINK"), ("LINK", "ETH")]}


def arb(c, hops, start):
    g, ios = graph(c, hops)
    toks = ["ETH", "USDC"] if len({t for h in hops for t in h}) == 2 else ["ETH", "USDC", "LINK"]
    nodes = [c.meth(g, "node_by_tkn", t) for t in toks]
    cyc = c.call(G + "Cycle", c.lift(nodes), graph=g, uid=7)
    before = c.snapshot(*c.items(c.attr(g, "edges")), *nodes)
    r = c.meth(cyc, "run_arbitrage_cycle", token=start)
    c.ensure("nothing recorded", c.unchanged(before, c.snapshot(*c.items(c.attr(g, "edges")), *nodes)))
    first = toks.index(start) if start in toks else 0
    order = toks[first:] + toks[:first] + [toks[first]]
    legs = []
    for i, o in zip(order, order[1:]):
        ks = [k for k, h in enumerate(hops) if h == (i, o)]
        legs.append((sum((ios[k][0] for k in ks[1:]), ios[ks[0]][0]), sum((ios[k][1] for k in ks[1:]), ios[ks[0]][1])))
    return r, legs, order


@contract("G02", functions=[AG + ".run_arbitrage_cycle", G + "Cycle.run_arbitrage_cycle", G + "Cycle.pairs", G + "Cycle.items", G + "Cycle.CycleIterator",
                            AG + ".RunArbCycleResult.r", AG + ".RunArbCycleResult.rpcs", AG + ".RunArbCycleResult.ppcs"], samples=300)
def arbitrage_cycle_is_feasible_and_full(c):
    """the reported input, pushed step by step at the prices of the (combined) edges, gives the reported output, fits the capacity of every step and fills at
    least one; the profit is output minus input"""
    shape = c.choice("shape", ["two", "parallel", "three"])
    start = c.choice("start", [None, "ETH", "USDC", "BNT"])
    r, legs, order = arb(c, CYC[shape], start)
    x, out = c.attr(r, "amount_in"), c.attr(r, "amount_out")
    c.ensure("profit", c.eq(c.attr(r, "profit"), out - x, scale=out + x))
    c.ensure("token", c.attr(r, "token") == order[0])
    c.ensure("start index", c.attr(r, "start_ix") == ["ETH", "USDC", "LINK"].index(order[0]))
    c.ensure("positive", c.And(x > 0, out > 0))
    y = x
    full = []
    for k, (ci, co) in enumerate(legs):
        c.ensure(f"step {k} within capacity", c.le(y, ci))
        full.append(c.eq(y, ci))
        y = c.div(y * co, ci)
    c.ensure("output", c.eq(y, out))
    c.ensure("a step is full", c.Or(*full))
    n = len(legs)
    c.ensure("return", c.eq((c.attr(r, "r") + 1) * x, out, scale=x + out))
    c.ensure("return per step", c.eq(c.attr(r, "rpcs") * n, c.attr(r, "r"), tol=1e-9))
    c.ensure("profit per step", c.eq(c.attr(r, "ppcs") * n, c.attr(r, "profit"), scale=out + x))
    c.ensure("length", c.attr(r, "length") == n)


@contract("G02", functions=[AG + ".run_arbitrage_cycle", AG + ".run_arbitrage_cycles", AG + ".run_arbitrage_cyclesf", AG + ".RunArbCycleResult.asdict",
                            AG + ".RunArbCycleResult.tokens"], samples=40)
def arbitrage_of_several_cycles(c):
    """running several cycles is running each one; the dict format shows the same numbers; an unknown start token is refused if any_token is not allowed"""
    g, ios = graph(c, CYC["two"])
    ns = [c.meth(g, "node_by_tkn", t) for t in ("ETH", "USDC")]
    cy = [c.call(G + "Cycle", c.lift(ns), uid=0), c.call(G + "Cycle", c.lift(ns[::-1]), uid=1)]
    one = [c.meth(g, "run_arbitrage_cycle", y) for y in cy]
    rs = c.items(c.meth(g, "run_arbitrage_cycles", c.lift(cy)))
    ds = c.items(c.meth(g, "run_arbitrage_cycles", c.lift(cy), format="dicts"))
    c.ensure("two results", len(rs) == 2 and len(ds) == 2)
    for k in range(2):
        d = dict(c.dict_items(ds[k]))
        for f in ("profit", "amount_in", "amount_out"):
            c.ensure(f"{f} {k}", c.And(c.eq(c.attr(rs[k], f), c.attr(one[k], f)), c.eq(d[f], c.attr(one[k], f))))
        c.ensure(f"labels {k}", d["uid"] == k and d["token"] == ["ETH", "USDC"][k] and d["length"] == 2 and "cycle" not in d and
                 d["tokens"] == ["ETH, USDC", "USDC, ETH"][k])
        if not c.symbolic:
            import re
            txt = c.builtin("str", rs[k])
            m = re.fullmatch(r"RACResult\(profit: (\S+) \[(\w+)\], in: (\S+), rpcs: (\S+)%, ppcs: (\S+), len: 2,  uid: (\d)\)", txt)
            c.ensure(f"text {k}", bool(m) and m.group(2) == d["token"] and int(m.group(6)) == k and
                     all(abs(float(m.group(i)) - f * x) <= .0500001 + 1e-6 * abs(f * x) for i, f, x in
                         ((1, 1, d["profit"]), (3, 1, d["amount_in"]), (4, 100, c.attr(rs[k], "rpcs")), (5, 1, c.attr(rs[k], "ppcs")))))
    c.ensure("unknown token refused", c.try_meth(g, "run_arbitrage_cycle", cy[0], token="XXX", allow_any_token=False).raised("ValueError"))


@contract("G02", functions=[G + "Cycle.items", G + "Cycle.pairs", G + "Cycle.CycleIterator.__next__", G + "Cycle.is_subcycle_of", G + "Cycle.filter_subcycles",
                            G + "Cycle.byid", G + "Path.items", G + "Path.pairs", G + "Cycle.__len__"], samples=60)
def cycles_close(c):
    """from any start, a cycle visits every item once in order and comes back to the start; a path does not"""
    n = c.choice("n", [1, 2, 3, 4, 5])
    data = list(range(10, 10 + n))
    s = c.choice("s", list(range(5)))
    s = s % n
    cy = c.call(G + "Cycle", c.lift(data), uid="x")
    want = data[s:] + data[:s] + [data[s]]
    c.ensure("by index", list(c.items(c.builtin("list", c.meth(cy, "items", start_ix=s)))) == want)
    c.ensure("by value", list(c.items(c.builtin("list", c.meth(cy, "items", start_val=data[s])))) == want)
    c.ensure("pairs", [tuple(c.items(x)) for x in c.items(c.builtin("list", c.meth(cy, "pairs", start_ix=s)))] == list(zip(want, want[1:])))
    c.ensure("default", list(c.items(c.builtin("list", c.meth(cy, "items")))) == data + data[:1])
    p = c.call(G + "Path", c.lift(data))
    c.ensure("path", list(c.items(c.builtin("list", c.meth(p, "items")))) == data)
    c.ensure("path pairs", [tuple(c.items(x)) for x in c.items(c.builtin("list", c.meth(p, "pairs")))] == list(zip(data, data[1:])))
    nodes = [c.call(N, f"T{k}") for k in range(n)]
    nc = c.call(G + "Cycle", c.lift(nodes), uid="n")
    names = [f"T{k}" for k in range(n)]
    wantn = names[s:] + names[:s] + [names[s]]
    text = [f"{a}/{b}" for a, b in zip(wantn, wantn[1:])]
    c.ensure("pairs as text", c.items(c.meth(nc, "pairs_s", start_ix=s)) == text and c.items(c.meth(nc, "pairs_s", start_val=nodes[s])) == text and
             c.items(c.meth(nc, "pairs_s")) == [f"{a}/{b}" for a, b in zip(names, names[1:] + names[:1])])
    c.ensure("length", c.builtin("len", cy) == n)
    drop = c.choice("drop", list(range(5))) % n
    sub = c.call(G + "Cycle", c.lift([x for x in want[:-1] if x != data[drop]] if n > 1 else want[:-1]), uid="y")
    c.ensure("sub cycle", c.meth(sub, "is_subcycle_of", cy) is True and c.meth(cy, "is_subcycle_of", sub) is (n == 1))
    if n >= 3:
        rev = c.call(G + "Cycle", c.lift(data[::-1]), uid="z")
        c.ensure("reversed is not", c.meth(rev, "is_subcycle_of", cy) is False)
        c.ensure("filtered", len(c.items(c.meth(cy, "filter_subcycles", c.lift([sub, rev, cy])))) == 2)
    c.ensure("both starts refused", c.try_meth(cy, "items", start_ix=0, start_val=data[0]).raised("ValueError"))
    c.ensure("by id", c.same(c.call(G + "Cycle.byid", c.lift([cy, sub]), "y"), sub) and c.call(G + "Cycle.byid", c.lift([cy]), "y") is None)


@contract("G02", functions=[AG + ".edge_statistics", AG + ".node_statistics"], samples=100)
def statistics_are_sums(c):
    """the statistics of edges and nodes are the sums of the amounts and capacities of exactly the edges concerned; utilisation is the used part"""
    g, ios = graph(c, HOPS)
    es = c.items(c.attr(g, "edges"))
    rem = [ios[k][0] * c.real(f"f{k}", lo=0, rng=(0.01, 0.99), log=False) for k in range(4)]
    for k in range(4):
        c.meth(es[k], "reset_state", rem[k])

    def chk(nm, s, ks):
        def v(f):
            return c.attr(c.attr(s, f), "amount")

        def add(xs):
            return sum(xs[1:], xs[0])
        ai, ao, ar = add([ios[k][0] for k in ks]), add([ios[k][1] for k in ks]), add([rem[k] for k in ks])
        c.ensure(nm + " edges", c.attr(s, "len") == len(ks) and all(c.same(a, es[k]) for a, k in zip(c.items(c.attr(s, "edges")), ks)))
        c.ensure(nm + " sums", c.And(c.eq(v("amount_in"), ai), c.eq(v("amount_out"), ao), c.eq(v("amount_in_remaining"), ar)))
        c.ensure(nm + " price", c.eq(c.attr(s, "price") * ai, ao))
        c.ensure(nm + " utilisation", c.eq((1 - c.attr(s, "utilization")) * ai, ar, scale=ai))
        for i, k in enumerate(ks):
            g2 = [c.items(c.attr(s, f))[i] for f in ("amounts_in", "amounts_out", "amounts_in_remaining", "prices", "utilizations")]
            c.ensure(f"{nm} edge {k}", c.And(c.eq(g2[0], ios[k][0]), c.eq(g2[1], ios[k][1]), c.eq(g2[2], rem[k]), c.eq(g2[3] * ios[k][0], ios[k][1]),
                                             c.eq((1 - g2[4]) * ios[k][0], rem[k], scale=ios[k][0])))
    chk("pair", c.meth(g, "edge_statistics", "ETH", "USDC"), [0, 1])
    bw = c.items(c.meth(g, "edge_statistics", "ETH", "USDC", bothways=True))
    c.ensure("two ways", len(bw) == 2)
    chk("there", bw[0], [0, 1])
    chk("back", bw[1], [2])
    bw = c.items(c.meth(g, "edge_statistics", pair="ETH/USDC", bothways=c.choice("bw", [True, False])))
    chk("pair there", bw[0], [0, 1])
    chk("pair back", bw[1], [2])
    chk("list", c.meth(g, "edge_statistics", edges=c.lift(es[2:3])), [2])
    c.ensure("none", c.meth(g, "edge_statistics", "LINK", "USDC") is None)
    c.ensure("mixed list refused", c.try_meth(g, "edge_statistics", edges=c.lift(es)).raised("ValueError"))
    s = c.meth(g, "node_statistics", "USDC")
    c.ensure("node edges", [len(c.items(c.attr(s, f))) for f in ("edges_in", "edges_out")] == [2, 2])
    c.ensure("node sums", c.And(c.eq(c.attr(c.attr(s, "amount_in"), "amount"), ios[0][1] + ios[1][1]),
                                c.eq(c.attr(c.attr(s, "amount_out"), "amount"), ios[2][0] + ios[3][0]),
                                c.eq(c.attr(c.attr(s, "amount_out_remaining"), "amount"), rem[2] + rem[3])))
    c.ensure("neighbours", sorted(c.items(c.attr(s, "nodes_in"))) == ["ETH"] and sorted(c.items(c.attr(s, "nodes_out"))) == ["ETH", "LINK"])


@contract("G02", functions=[AG + ".edgedf", AG + ".pricetable", AG + ".cycles", AG + ".degree", AG + ".Laplacian", AG + ".Adjacency", AG + ".as_graph"], samples=120, kind="bounded")
def tables_of_a_graph(c):
    """the table of edges shows for every pair the number of edges in each direction and its price; amounts of equal direction are summed; the price table
    holds the price of every pair of tokens; the cycles, degrees and matrices are those of the edges"""
    hops = [("ETH", "USDC"), ("LINK", "USDC"), ("WBTC", "USDC"), ("ETH", "WBTC")]
    g, a = c.call(AG), c.call(AG)
    fw, bw = {}, {}
    adj = {}
    alls = c.choice("all both ways", [False, True])
    for k, (i, o) in enumerate(hops):
        sym = "both" if alls else c.choice(f"sym{k}", ["forward", "both", "back", "none", "two"])
        p = c.real(f"p{k}", gt=0, rng=(1e-2, 1e2))
        w = c.real(f"w{k}", gt=0, rng=(1e-1, 1e1))
        if sym != "none":
            i2, o2, p2 = (o, i, 1 / p) if sym == "back" else (i, o, p)
            c.meth(g, "add_edge_connectiontype", i2, o2, price_outperin=p2, weight=w, symmetric=sym == "both")
            adj[i2, o2] = p2
            if sym == "both":
                adj[o2, i2] = 1 / p2
            if sym == "two":
                c.meth(g, "add_edge_connectiontype", i, o, price_outperin=p, weight=w, symmetric=False)
            c.meth(a, "add_edge", i2, w, o2, w * p2)
            c.meth(a, "add_edge", i2, 2 * w, o2, w * p2)
        fw[f"{i}/{o}"] = dict(n=w * (2 if sym == "two" else 1) if sym in ("forward", "both", "two") else 0, rev=w if sym in ("both", "back") else 0, p=p)
    if not any(v["n"] or v["rev"] for v in fw.values()):
        return
    es = list(g.edges)

    def same(x, y):
        return abs(x - y) <= 1e-9 * max(abs(x), abs(y))
    if any(v["n"] for v in fw.values()) and any(v["rev"] for v in fw.values()):
        df = c.meth(g, "edgedf")
        c.ensure("pairs", sorted(df.index) == sorted(_prim(x) for x, v in fw.items() if v["n"] or v["rev"]))
        for x, v in fw.items():
            if not (v["n"] or v["rev"]):
                continue
            row = df.loc[_prim(x)]
            pp = v["p"] if _prim(x) == x else 1 / v["p"]
            n, rv = (v["n"], v["rev"]) if _prim(x) == x else (v["rev"], v["n"])
            c.ensure("forward edges", same(row["n"], n) if n else row["n"] != row["n"])
            c.ensure("reverse edges", same(row["n_rev"], rv) if rv else row["n_rev"] != row["n_rev"])
            c.ensure("price", same(row["price"], pp))
    df = c.meth(g, "edgedf", consolidated=False)
    c.ensure("one row per edge", len(df) == len(es) and all(t == e.node_in.tkn and same(q, e.price_outperin) for t, q, e in zip(df["tkn_in"], df["price_outin"], es)))
    df = c.meth(a, "edgedf", resetindex=True)
    want = {}
    for e in a.edges:
        k = (e.node_in.tkn, e.node_out.tkn)
        x, y = want.get(k, (0, 0))
        want[k] = (x + e.amount_in, y + e.amount_out)
    c.ensure("sums", len(df) == len(want) and all(same(ai, want[i, o][0]) and same(ao, want[i, o][1])
                                                  for i, o, ai, ao in zip(df["tkn_in"], df["tkn_out"], df["amount_in"], df["amount_out"])))
    toks = [n.tkn for n in g.nodes]
    # networkx based views
    arcs = {(e.node_in.ix, e.node_out.ix) for e in es}
    A = c.meth(g, "Adjacency", include_eigenvalues=False).toarray()
    c.ensure("adjacency", all(A[i][j] == ((i, j) in arcs) for i in range(len(toks)) for j in range(len(toks))))
    ind, outd = c.meth(g, "in_degree"), c.meth(g, "out_degree")
    c.ensure("degrees", all(ind[i] == sum(y == i for _, y in arcs) and outd[i] == sum(x == i for x, _ in arcs) for i in range(len(toks))))
    und = {frozenset(x) for x in arcs}
    L = c.meth(g, "Laplacian", include_eigenvalues=False).toarray()
    c.ensure("Laplacian", all(L[i][j] == (sum(i in x for x in und) if i == j else -(frozenset((i, j)) in und)) for i in range(len(toks)) for j in range(len(toks))))

    def simple(start):
        found, stack = set(), [(start,)]
        while stack:
            path = stack.pop()
            for x, y in arcs:
                if x == path[-1]:
                    if y == start:
                        found.add(path)
                    elif y not in path and y > start:
                        stack.append(path + (y,))
        return found
    cyc = c.meth(g, "cycles")
    got = []
    for q in cyc:
        ix = [n.ix for n in q.data]
        m = ix.index(min(ix))
        got.append(tuple(ix[m:] + ix[:m]))
    c.ensure("every simple cycle once", sorted(got) == sorted(x for s in range(len(toks)) for x in simple(s)) and [q.uid for q in cyc] == list(range(len(cyc))))
    if all(v["rev"] and v["n"] for v in fw.values()):
        t = c.meth(g, "pricetable", exclude=c.choice("ex", [None, [g.nodes[2]]]))
        c.ensure("price table", all(same(t.loc[i][o], adj[i, o]) for i, o in adj if i in t.index and o in t.index) and all(t.loc[i][i] == 1 for i in t.index))


def _prim(x):
    from carbon.tools.simplepair import SimplePair
    return SimplePair(x).primary
