"""the property table: one entry per property"""
PROOF = ("All obligations generated from the current source are discharged for all real/integer inputs (no bound). Floats and Decimals are treated as exact "
         "reals (rounding error is outside the proof; the same contracts are also run on the real PyPy code with floats, tolerance 1e-6); trusts the pyvc VC generator, its models of builtins, and z3/cvc5.")
PROPS = []


def P(id, title, statement, over, text, why, files, mech, note=PROOF, **kw):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, note=note, **kw))


NOT_APPLICABLE = []
IM = "benchmark/core/trade/impl.py"
UI = "carbon/carbon_order_ui.py"

P("T01", "Fixed-point trading by source amount never pays out more than the exact curve",
  "For every order and every source amount, the integer target amount is a non-negative integer not above the exact target amount of the order's curve, and equals its floor whenever all intermediate products fit 256 bits. "
  "When intermediates have to be scaled down to fit, the loss stays within a few units plus the relative resolution of the scaled terms. "
  "For an encoded order the result fits 128 bits and is 0 when the trade cannot be represented.",
  ["inputs"], "all integer source amounts and all (also extreme) order parameters y, z, A, B; all encoded orders",
  "benchmark tests compare 13 000 random cases against a Decimal spec with a tolerance; rounding direction at the 256-bit scaling boundaries is never exercised systematically",
  [IM], [("tradeBySourceAmountFunc", IM), ("mulDivF/mulDivC", IM), ("uint128", IM), ("tradeBySourceAmount", IM)],
  note=PROOF + " The scaled-loss bound is only checked on concrete runs (bounded: random orders, 1500 quick).")
P("T02", "Fixed-point trading by target amount never charges less than the exact curve",
  "For every order and every target amount, the integer source amount required is a non-negative integer not below the exact source amount of the order's curve, and equals its ceiling whenever all intermediate products fit 256 bits. "
  "For an encoded order the result fits 128 bits and is 2^128-1 when the trade cannot be represented. "
  "Paying the quoted source amount trades back to at least the target up to rounding, and no round trip gains.",
  ["inputs"], "all integer target amounts and all order parameters; all encoded orders",
  "random comparison with tolerance cannot show the rounding direction for every input",
  [IM], [("tradeByTargetAmountFunc", IM), ("mulDivF/mulDivC", IM), ("tradeByTargetAmount", IM)])
P("T03", "Rate and order encodings lose a bounded amount, never in the trader's favour",
  "Decoding an encoded number or rate gives a value not above the original, exact for small numbers and within the resolution of a 48-bit mantissa otherwise, and encoding again changes nothing. "
  "An encoded order has capacity at least its liquidity, with equality exactly when its marginal rate is the top of its range. "
  "A decoded order keeps its liquidity and has lowest <= marginal <= highest rate.",
  ["inputs"], "all numbers, all rates, all orders with lowest <= marginal <= highest",
  "the tests only encode the handful of rates in their data files",
  [IM], [("encodeFloat/decodeFloat", IM), ("encodeRate/decodeRate", IM), ("encodeOrder/decodeOrder", IM)])
MA = "benchmark/core/match/impl.py"
P("T04", "Integer quotes never exceed an order's liquidity and are the order's own trade",
  "A quote by source amount pays exactly what the order trades for the quoted input, never more than the order's liquidity, and uses the whole amount when the liquidity suffices. "
  "A quote by target amount asks for the smaller of target and liquidity, at the order's own cost of it. An amount that buys more than y never costs less than y does.",
  ["inputs"], "all integer amounts, all encoded orders (the quantity loop is cut by an inferred invariant: any number of iterations)",
  "the benchmark tests only compare totals of recorded cases",
  [MA, IM], [("rateBySourceAmount", MA), ("rateByTargetAmount", MA), ("tradeBySourceAmount", IM)],
  note=PROOF + " That the quoted input never exceeds the amount is proved for unscaled arithmetic (lemma) and checked on concrete runs otherwise; termination of the loop is not proved.")
P("T05", "Integer matching never overspends and goes through orders best first",
  "Fast matching never uses more than the amount, only accepted quotes, and the whole amount unless every quote is used up. Quotes are totally ordered by rate, then size. "
  "Bringing an order to a limit rate gives exactly the largest amount that keeps it at or above the limit. "
  "Best matching never spends more than the amount, gives at most each order's liquidity at the order's own trade, and is no worse than fast matching up to rounding.",
  ["inputs"], "any number of quotes, any trade and filter function (fast); all orders and limits; sampled books of up to 6 orders (best)",
  "tests replay recorded books; other books made best matching spend a hundred times the amount",
  [MA], [("matchFast", MA), ("sortByMinRate / sortByMaxRate", MA), ("equalizeByTargetAmount / getLimit", MA), ("matchBest", MA)],
  note=PROOF + " matchFast is proved for any number of quotes by loop invariants; matchBest (bisection with float-free integers) is only checked on seeded random books (bounded: 2500 books of 1-6 orders), and one known finding (books with a worthless order) is reported as such.")
P("C01", "Swaps on a curve stay on the curve and refuse what is out of range",
  "For every curve and every amount within range, the amount given for an amount received (and vice versa) moves the point exactly along the curve's invariant; the two directions are inverse to each other, splitting a trade changes nothing, later units never get cheaper, and the queries modify nothing. "
  "Requests outside the range (negative, or more than the liquidity) return no value by default and raise ValueError when errors are asked for. "
  "A curve without prices (disabled) quotes and trades nothing.",
  ["inputs"], "all curve parameters (B>0, S>=0, capacity, liquidity), both token orientations, all amounts",
  "tests sample a few curves; the invariant must hold for every parameter and amount including the ends of the range",
  [UI], [("dyfromdx_f", UI), ("dxfromdy_f", UI), ("xfromy_f / yfromx_f", UI), ("raiseonerror handling", UI)])
P("C02", "Curve prices stay in range, and all descriptions of a curve agree",
  "The marginal price lies between start and end price, reaches them exactly when the curve is full and empty, and moves monotonically with the amount sold; the effective price of a sale is the geometric mean of the marginal prices before and after. "
  "The amount to reach a target price reaches exactly that price (all or nothing beyond the range). "
  "Shape parameters and derived attributes (intercepts, asymptotes, kappa, convexity, width, total liquidity) describe the same curve, and liquidity in a price range lies between nothing and everything and is total over the full range.",
  ["inputs"], "all curves, amounts, target prices and price ranges",
  "tests check individual numeric examples",
  [UI], [("p_marg_f / p_eff_f", UI), ("yfromp_f / dyfromp_f", UI), ("Q, Gamma, x0, y0, xasym, yasym, kappa", UI), ("liquidity_approx", UI)])
P("C03", "Executing a trade on linked curves conserves tokens and is all-or-nothing",
  "An executed sale takes exactly dy off the curve and puts exactly the curve's dx onto the linked curve (growing its capacity only as far as needed), and reports the same numbers as the quote. "
  "A trade that cannot be done, or is only quoted, leaves both curves unchanged; capacity changes only when that is allowed. "
  "Trading to a price leaves the curve at that price, sold out if it is beyond the end, untouched if beyond the current price; ids and links can be set only once.",
  ["inputs", "histories"], "all linked curve pairs, all signed amounts and target prices, executing or not, expanding or not",
  "tests run a few fixed sequences; conservation and atomicity must hold for each amount and curve state",
  [UI], [("selly", UI), ("buyx", UI), ("tradeto", UI), ("addliqy", UI), ("set_linked / set_id", UI)])
P("C04", "Every way of constructing a curve recovers the parameters it was given",
  "Curves built from prices, convexity, curve parameters, an order, or an SDK strategy report those parameters back (prices in worse-to-better order), and invalid parameters are refused with ValueError. "
  "The equivalent constant-product curve has the same marginal price and bounds, and the contract encoding scales by token decimals and the requested power of two, rounding down. "
  "Sorting curves by pair puts each curve once under its pair and once on exactly one side.",
  ["inputs"], "all valid and invalid constructor inputs",
  "tests construct few curves and compare printed values",
  [UI, "carbon/tools/cpc.py"], [("from_prices", UI), ("from_Qxy", UI), ("from_BSy / from_order", UI), ("from_SDK / _from_SDK0", UI), ("as_cpc", UI), ("yzABS", UI), ("curves_by_pair_bidask", UI)])
P("O02", "Token pairs convert amounts and prices consistently whatever the orientation",
  "For every pair, converting an amount there and back at a price is the identity, prices are reported in the asked-for orientation with reversed pairs reciprocal, and unknown tokens give no value. "
  "A limit is met exactly when the price is at the limit or better for the given side. "
  "All constructors yield the same upper-cased pair or refuse with ValueError, decimals survive copying, and exactly one orientation of a pair is primary with an orientation-independent primary price.",
  ["inputs"], "all amounts, prices, limits, sides and orientations",
  "tests check one pair with few prices; reversal symmetry is a statement over all of them",
  ["carbon/pair.py", "carbon/tools/simplepair.py"], [("convert", "carbon/pair.py"), ("price / convert_price", "carbon/pair.py"), ("limit_is_met", "carbon/pair.py"), ("constructors", "carbon/pair.py"), ("primary_price", "carbon/tools/simplepair.py")])
EB = "carbon/routers/exact_base_router.py"
EX = "carbon/routers/exact_router_x0y0n.py"
FA = "carbon/routers/fast_router.py"
AL = "carbon/routers/alpha_router.py"
P("O01", "Order parameters and the routers' hyperbola describe the same price curve",
  "An order built from curve parameters or from a price range (in either order) has end price B^2 and start price (B+S)^2, reciprocal for a reversed quote, keeps the given capacity and liquidity, and reports the same parameters back. "
  "The hyperbola parameters the exact router uses (n, x0, y0, k, x) are those of that same curve. "
  "Given a marginal price instead of a capacity, the capacity is the one whose curve has that marginal price at the given liquidity. Orders without liquidity or without a price range are refused.",
  ["inputs"], "all price ranges, capacities and liquidity levels (also fractions below one unit and empty orders)",
  "tests use a few orders with large amounts and whole-number prices",
  ["carbon/order.py"], [("__post_init__", "carbon/order.py"), ("n, x0, y0, k, x, a, p", "carbon/order.py")])
P("R01", "Every router quotes a single order at the price of its curve",
  "The amount to pay for a target amount, and the amount received for a source amount, from one order is the same in the exact, the fast and the alpha router and is the one given by the order's own curve, for every liquidity level the order can have.",
  ["inputs"], "all orders, liquidity levels and amounts",
  "tests compare the routers on a handful of orders with tolerance",
  [EB, FA, AL], [("dxdy", EB), ("amt_by_src / amt_by_target", FA), ("amt_by_src / amt_by_target", AL)])
P("R02", "The exact split is complete and leaves all orders at one marginal rate",
  "Before any order is dropped or capped, the amounts the exact router assigns to the orders add up to the requested target amount (or pay exactly the offered source amount), and after them every participating order has the same marginal rate, so no part of the amount could be moved to another order to improve the trade.",
  ["inputs"], "all orders (any hyperbola with n in (0,1)) and amounts, for one, two and three participating orders",
  "tests compare totals for fixed order books; optimality for all amounts is not observable from samples",
  [EX, EB], [("amt_by_target / handle_subfunctions_target", EX), ("amt_by_src / b_src / handle_subfunctions_src", EX)],
  note=PROOF + " Proved for one, two and three participating orders; larger numbers of orders are not proved (the closed forms are sums and products over the orders).")
P("R03", "Exact matching delivers what was asked within liquidity at curve prices",
  "Matching an amount against orders either raises an error or returns actions that use each order at most once, take no more than its liquidity, charge the order's curve price for what it gives, report totals equal to their sums, and add up to the amount asked for. "
  "A target amount that is available is never refused, and no order that is used ends at a worse rate than one that could still give more.",
  ["inputs"], "all orders with liquidity and all amounts",
  "tests cover a few order books; capping and dropping of orders depends on the amounts",
  [EB, EX], [("match", EB), ("match_by_target / match_by_src", EB), ("check_partial_swaps", EB)],
  note=PROOF + " Proved for one order (both directions) and two orders by target (refusals, limits, totals); two to five orders by source, three and five by target, and the price and optimality clauses for several orders are checked on seeded random books only (bounded: 1500 books each).", level="exploration")

FRF, ARF, SIMF, ORF = "carbon/routers/fast_router.py", "carbon/routers/alpha_router.py", "carbon/simulators/carbon_simulator.py", "carbon/order.py"
P("R04", "Fast matching takes the best quotes first until the amount is reached",
  "The fast router quotes each order for the whole amount, limited by its liquidity, at the order's curve price, and ranks quotes by rate, then size (a total order). "
  "Matching uses each order at most once and never beyond its liquidity, goes from the best quote down using up each order before the next, reaches the amount unless everything is sold out, never exceeds it, and reports totals equal to the sums. Amounts of either sign give the same match.",
  ["inputs"], "all amounts and liquidities, any quote function with the contract, up to three orders; up to six sampled orders end to end",
  "tests compare a few books with recorded results; ranking, exhaustion and the running totals depend on every amount",
  [FRF, "carbon/routers/base_router.py"], [("match", FRF), ("cmp_min / cmp_max", FRF), ("get_trade_amounts_by_*", FRF)],
  note=PROOF + " Matching is proved for books of one to three orders (loops unrolled, any quote function satisfying the quote contract); two to six real orders are sampled (bounded).", level="proof")
P("R05", "The alpha router selects enough orders and matches them exactly",
  "At most the allowed number of orders is used. The orders selected hold the amount whenever that many orders can, the most liquid ones are taken otherwise, and no order ranked behind the first sufficient ones is used. "
  "On its selection the result is the exact router's: within liquidity, at curve prices, complete, and with totals equal to the sums. An amount that the allowed number of orders can deliver is never refused, and a partial match is possible when it was asked for.",
  ["inputs"], "all liquidities and amounts for up to four orders and five allowed (selection); sampled books of up to six orders (match)",
  "tests cover a handful of books; selection is a search over combinations whose outcome depends on the amounts",
  [ARF], [("gen_one_order_selector", ARF), ("assertion_checks", ARF), ("match", ARF)],
  note=PROOF + " The selection is proved for one to four orders and one to five allowed; the match itself goes through pandas, out of the verifier's reach, and is checked on seeded random books only (bounded: 800 books).", level="exploration")
P("S01", "A trade moves exactly what it records, and nothing when not executed",
  "Buying or selling through the simulator offers the router only live orders of the pair that sell the token and, when positions are named, only those, whatever the sign of the amount. "
  "An executed trade takes each route's output off its order, adds what was paid to the linked order (whose capacity grows only when overfilled), leaves every other order alone, and records exactly those amounts, tokens, routes and average price under consecutive ids. "
  "A quote, a trade whose limit price or limit amount is not met, or a trade that fails moves nothing; a trade executes exactly when its average price is at the limit or better for the trader.",
  ["inputs", "history"], "all order states, amounts and limits; any router result of one or two routes over up to eight orders",
  "tests run a few scripted scenarios; which orders move and whether a limit is met depends on direction, token and amounts",
  [SIMF], [("_trade", SIMF), ("amm_buys", SIMF), ("amm_sells", SIMF)],
  note=PROOF + " The router is replaced by its contract (distinct offered orders, positive amounts, totals); worlds of up to eight orders and trades of up to two routes (loops unrolled). The rounding of recorded amounts is checked concretely.", level="proof")
P("S02", "Strategies become two linked orders with the given parameters, or nothing",
  "Adding a strategy creates two consecutive orders linked to each other with the given liquidity, prices, capacity or marginal price, token, pair and carbon id; a leg without prices is empty and disabled; existing orders do not change. "
  "A strategy with an invalid leg is refused as a whole. Deleting an order removes it and its linked order and nothing else. The state lists every order (of the pairs asked for) with its parameters and links. A strategy from the SDK arrives with its budgets, fill levels and prices.",
  ["inputs", "history"], "all prices (in the convention of the pair), liquidities, capacities and marginal prices; both tokens",
  "tests add a few strategies; deletion by id 1 and the refusal of a second leg were wrong although all tests passed",
  [SIMF, ORF], [("add_strategy", SIMF), ("add_order", SIMF), ("delete_order", SIMF), ("state", SIMF), ("add_fromsdk", SIMF)])
P("S03", "Simulations conserve tokens end to end with every router",
  "A trade against a single strategy, with the real router, moves exactly the amount asked for at the price of the order's curve. "
  "In any simulation, every executed trade changes the orders by exactly what its records say, at prices within the ranges of the orders used; quotes, failures and trades on other pairs move nothing; an amount within the liquidity is not refused; liquidity and the tables agree with the orders.",
  ["inputs", "history"], "all curves and amounts (one strategy, fast router); sampled simulations of up to three strategies and six trades with each router",
  "tests check a few scenarios against recorded numbers",
  [SIMF, "carbon/routers/exact_base_router.py", ARF, FRF], [("_trade", SIMF), ("match", FRF), ("state", SIMF), ("liquidity", SIMF)],
  note=PROOF + " Proved for one strategy with the fast router. Whole simulations with the exact, fast and alpha routers are sampled (bounded: 250 simulations quick, 5000 thorough); amounts and leftovers below 1e-6 are left out because the routers round to 12 decimals.", level="exploration")

CPC, FLI, SHV, UV3 = "carbon/tools/cpc.py", "carbon/helpers/floatint.py", "carbon/helpers/sharedvar.py", "carbon/tools/univ3calc.py"
P("K01", "Levered constant-product curves have the range and price they were built from",
  "Curves built from any two of k, x, y and price, from a Uniswap v2 or v3 position or from a Carbon order have exactly the given reserves, price, price range and depth; the price range ends where an actual balance reaches zero, and is None only where that never happens. "
  "The state at a price lies on the curve at that price (at the end of the range beyond it), and the value locked is that of the actual balances. Contradictory, missing or out-of-range parameters are refused.",
  ["inputs"], "all curves (k, x > 0, any actual balances within the virtual ones), all positions and orders",
  "tests build a few curves with round numbers; the range depends on which balances are levered",
  [CPC], [("p_min/p_max, x_min/x_max, y_min/y_max", CPC), ("from_kx .. from_py, from_univ2, from_univ3, from_carbon", CPC), ("xyfromp_f / dxdyfromp_f", CPC), ("tvl", CPC)])
P("K02", "Swaps on levered curves keep k and never overdraw a balance",
  "A swap by dx or dy moves both virtual and actual balances by exactly the amounts along xy = k and leaves the price range and the original curve alone. "
  "Unless bounds are ignored, a swap that would pay out more than the actual balance of either token is refused. Swaps compose and reverse. "
  "The swap functions are inverse to each other, of opposite sign, and None exactly where no finite swap exists; the largest swaps sell exactly one whole balance.",
  ["inputs", "histories"], "all curves and amounts of either sign",
  "tests swap a few amounts on a few curves; paying out more than the balance passed them",
  [CPC], [("execute", CPC), ("yfromx_f, xfromy_f, dyfromdx_f, dxfromdy_f", CPC), ("dx_min, dy_min, dx_max, dy_max", CPC)])
P("K03", "An inverted curve is the curve of the reversed pair",
  "Every attribute and swap function of an inverted curve agrees with those of the curve built the other way round, including which limits do not exist. "
  "A pair and its reverse have the same primary pair and the same primary price, and wrapping brings any collection of curves into primary direction without changing what they are.",
  ["inputs"], "all curves, prices and amounts; both orientations",
  "tests invert two curves; unlimited curves crashed",
  [CPC, "carbon/tools/simplepair.py"], [("CPCInverter", CPC), ("isprimary, primary_price", "carbon/tools/simplepair.py")])
P("K04", "Curve containers hold, select and price exactly the curves added",
  "However curves are added, each is in the container once, in order, under its id. Selections by pair, token, id or any combination of filter conditions return exactly the matching curves and change nothing. "
  "The price of a pair is the average of its curves' prices in either orientation, and a container is restored from its dictionaries with every number and label.",
  ["inputs"], "containers of up to three curves with any numbers; every combination of filter conditions",
  "tests use one fixed container; combinations of conditions are not enumerated",
  [CPC], [("CPCContainer.add, bypairs, bytknx, bycids", CPC), ("filter_pairs", CPC), ("price", CPC), ("asdicts / from_dicts", CPC)])
P("F01", "Compressed floats keep the leading bits and never exceed the value",
  "Compressing an integer keeps its leading 40 bits: the value is never above the integer, below it by less than 2^-39 of it, exact under 41 bits, unchanged by compressing again, and monotone. "
  "Floats round down to the fixed-point grid. Values that do not fit (negative, too long, not an integer) are refused.",
  ["inputs"], "all integers of up to 295 bits and beyond, all floats",
  "tests use a few numbers; the logarithm in floating point cut off one bit too few near powers of two",
  [FLI], [("from_int", FLI), ("from_float / asfloat", FLI), ("min / max", FLI)])
P("V01", "Shared variables behave like their value and stay shared",
  "Every arithmetic operation, comparison and conversion of a shared variable is that of its value, on either side of the operator, and leaves the operands alone. "
  "In-place operations change the value that all holders see, and setting it never breaks the sharing.",
  ["inputs", "histories"], "all numbers, all operators, both operand orders",
  "tests try some operators on a few numbers",
  [SHV], [("arithmetic and comparison operators", SHV), ("in-place operators, setval", SHV)])
P("U01", "Uniswap v3 pool data convert to the curve of the position",
  "From the contract data of a pool (square root price, tick, liquidity, fee tier, decimals) the price, liquidity and price range come out in token units for every combination of decimals; the range is the tick range around the current tick. "
  "Reserves and value locked are those of the constant-product curve with these parameters, in token units.",
  ["inputs"], "all prices, ticks, liquidities, fee tiers and decimals",
  "tests use pools of one pair of decimals",
  [UV3], [("p, papb, L", UV3), ("tkn0reserve, tkn1reserve, tvl", UV3), ("cpc_params", UV3)])
SDKF, SDK0F, SDKB, SDKT = "carbon/sdk/carbonsdk.py", "carbon/sdk/carbonsdk0.py", "carbon/sdk/sdkbase.py", "carbon/sdk/sdktoken.py"
P("E01", "SDK orders encode and decode without gaining value",
  "Encoded rates are the square root of the rate rounded down to 48 significant bits, monotone, and come back never above and within 2^-47. "
  "Encoding an order keeps its liquidity, gives the capacity asked for, or the one that makes the marginal price the one asked for, and the rates of its range; curve parameters given directly come back rounded down. "
  "Decoded orders have prices B^2 to (A+B)^2 and marginal prices at the ends of the range; strategies carry their orders' numbers, and describing them changes nothing.",
  ["inputs"], "all rates, integers, orders and curve parameters",
  "no test encodes an order through this class; a marginal price gave a negative capacity",
  [SDKF], [("encodeRate, encodeFloat, decodeFloat", SDKF), ("encode, encode_yzAB", SDKF), ("p_start, p_end, p_marg", SDKF), ("EncodedStrategy", SDKF)])
P("E02", "SDK calls ask for the pair and direction given and report in its convention",
  "Market queries ask for the rate of the token the AMM sells per token it buys, and report prices in the convention of the pair whatever its direction; the best price comes first. "
  "A strategy is created on the pair given with the ranges the right way round; overlapping ranges are refused. "
  "Buying is by target, selling by source, and the composed transaction allows exactly the given deviation. Strategies arrive with their prices, budgets and encoded numbers.",
  ["inputs"], "all pairs in both directions, rates, amounts, ranges; the server's answers are arbitrary",
  "tests need a server, so none of these calls is tested at all",
  [SDKF, SDK0F], [("mGetRangeByPair, mGetMarketByPair, mGetRateLiquidityDepthByPair", SDKF), ("mCreateStrategy", SDKF), ("mPrepareTrade / mComposeTradeTransaction", SDKF), ("reformatStrategy", SDK0F)],
  note=PROOF + " The HTTP layer is replaced by its contract (records what is asked, gives an arbitrary answer).")
P("E03", "SDK tokens, big numbers and requests are what was given",
  "Tokens and wei convert by the decimals (18 unless given), rounding down. Tokens are found by ticker and address in any spelling, and two tokens never share either. "
  "Integers survive the trip to big numbers and back whatever their size. "
  "Requests go to the end point given, synchronously or not as asked or by default, and failures are reported as asked.",
  ["inputs"], "all amounts, integers and token lists of three; every combination of defaults and answers",
  "tests convert a few numbers; requests are not tested as they need a server",
  [SDKT, SDKB, SDK0F], [("w2t / t2w", SDKT), ("TokenContainer", SDKT), ("bn2int / int2bn", SDKB), ("call", SDKB)],
  note=PROOF + " Rounding to significant digits is only sampled (bounded: 2000 numbers). The HTTP layer is replaced by its contract.")
ARG = "carbon/helpers/arbgraphs.py"
P("G01", "Token amounts and trade edges do exact and reversible bookkeeping",
  "Amounts of a token add, subtract, scale, compare and round by their value, and combining amounts of different tokens is refused. "
  "An edge reports one price in both conventions, and reversing it inverts the price and swaps its ends. "
  "Adding edges between the same nodes adds what goes in and out, and scaling an edge scales both. "
  "Transport moves amounts at the edge's price between its two nodes, within its capacity and the amount available; a refused transport changes nothing, and a reset restores the amounts the nodes and edges started with.",
  ["inputs", "histories"], "all amounts, prices, capacities and inversion choices",
  "tests use a few round numbers on one or two edges",
  [ARG], [("Amount arithmetic and comparison", ARG), ("Edge price, reverse, +, *", ARG), ("Edge.transport, reset_state", ARG), ("TrackedStateFloat, Node", ARG)])
P("G02", "Arbitrage graphs hold the trades given and price and run cycles along them",
  "A graph keeps one node per token, and its edges between the nodes given, whatever way they are added: single edges, exchanges, or the curves of a container (one edge in each direction at the curve's price). "
  "Filters by token and pair return exactly the edges described, and duplicates are equal but independent. "
  "The price between two tokens is the product of the prices along the path, one for a token in itself. "
  "The arbitrage reported for a cycle puts in the largest amount every step has capacity for, exchanges it at each step's price, and the profit is what came back less what was put in; "
  "statistics of edges and nodes count exactly the amounts of the edges described.",
  ["inputs", "histories"], "all amounts, prices and capacities on graphs of up to four nodes",
  "tests use one small graph with fixed prices; most options are never combined",
  [ARG], [("add_edge, add_node, add_edges_cpc", ARG), ("filter_edges, duplicate", ARG), ("price, ptransport", ARG), ("run_arbitrage_cycle(s), Cycle", ARG), ("edge_statistics, node_statistics", ARG)],
  note=PROOF + " Graph shapes are enumerated (up to four nodes); networkx is not interpreted, the shortest path it finds is given by its contract.")
STM = "carbon/helpers/strategym.py"
P("L01", "Strategy descriptions become exactly the ranges, prices and amounts described",
  "A strategy described by mid price, gap and width has its inner ends half a gap from the middle, its outer ends a width further out, and its marginal prices the utilisation into the range; "
  "described by sell and buy prices, its sell range goes up and its buy range down whatever the order given. Overlapping ranges, utilisations or widths out of range, and two kinds of seeding at once are refused. "
  "Rescaling multiplies every price by new over old spot, once, and leaves amounts, the original and fixed strategies alone. "
  "Splitting a value between cash and risk asset keeps the value at the spot price. The simulator gets the same numbers.",
  ["inputs"], "all prices, gaps, widths, utilisations and amounts; every form the arguments can take",
  "tests use a few round numbers; most options are never combined",
  [STM], [("from_mgw, from_sb, from_u3, from_dct", STM), ("rescale_strat, set_tvl", STM), ("__post_init__, dct", STM)])
AN = "carbon/simulators/sim_analytics.py"
P("A01", "Order book analytics report what was traded",
  "Order books derive effective prices, marginal prices, marginal amounts, price steps and liquidity density from the trade sizes and amounts by their definitions, in the units and direction stated, "
  "also in the data behind the charts. Truncation drops exactly the missing values at the end, so that each amount stays next to its trade size. "
  "Simulated trades are quotes: they never execute, ask the given (or default) simulator and pair in the requested direction for the requested size and report the aggregate's amount or price; without liquidity they report no amount. "
  "The approximate liquidity of each price interval is the sum over the curves of that pair and side.",
  ["inputs"], "all amounts, prices and curve liquidities; series of up to five elements, up to five curves",
  "tests compute one or two fixed books and mostly check that nothing crashes",
  [AN], [("OrderBook", AN), ("Analytics.effective_price, simulate_trades, truncate, linspace0, vecdot", AN), ("calc_liquidity_approx", AN)])
P("P01", "Parameter objects, token scales, range and version checks answer as specified",
  "A parameter object answers with the value set, else the default, else nothing (item access) or an error (attribute access); items are not overwritten unless allowed; copies have the values and defaults of the original and do not change it. "
  "Every token has a scale: the last one given or the default. "
  "Uint256 checks report every number out of range or close to its ends exactly once, at the right level and side, raise the matching exception from the raise level on, and return numbers in range unchanged. "
  "A version meets a requirement iff it is larger at the first difference or has it as a prefix. iseq is true iff every argument equals the first within the tolerance.",
  ["inputs", "histories"], "all values, all integers, all versions of up to three components, two or three arguments",
  "tests set a few values in one order",
  ["carbon/tools/params.py", "carbon/tools/tokenscale.py", "carbon/helpers/soltest.py", "carbon/helpers/version.py", "carbon/helpers/stdimports.py"],
  [("Params", "carbon/tools/params.py"), ("TokenScaleBase.scale", "carbon/tools/tokenscale.py"), ("check_uint256", "carbon/helpers/soltest.py"), ("_require_version", "carbon/helpers/version.py"), ("iseq", "carbon/helpers/stdimports.py")])
SIMU = "carbon/helpers/simulation.py"
P("H01", "Simulations along a price path account for every token",
  "A simulation starts with the amounts of its strategies, rescaled to the first price, and reports after every price exactly what the orders hold after trading to it; portfolio value is what is held at that price, the benchmark is the initial holding at that price, "
  "and the marginal prices are those of the orders, one series per strategy and side. Tokens are only exchanged at prices within the ranges, nothing is overdrawn, the strategies given are not changed, leading zero prices are skipped, and strategies of different pairs are refused. "
  "Start conditions split the valuation by weight at the first price.",
  ["inputs", "histories"], "all ranges, amounts and prices (one step); portfolios of up to three strategies along up to eight prices are sampled",
  "tests run one strategy along one path and look at a chart",
  [SIMU, "carbon/carbon_order_ui.py"], [("run_sim", SIMU), ("StartConditions.strategy_carbon", SIMU), ("tradeto", "carbon/carbon_order_ui.py")],
  note=PROOF + " The accounting over one step of one strategy is proved; longer paths and portfolios run the same comparison on sampled inputs.")
P("H02", "Price paths start, end and are dated where they should",
  "A generated path starts at the spot, has one point per step plus one, stays positive whatever the random numbers, and grows at exactly the drift without volatility; its log returns have the mean and variance of the parameters; frames have one column per path under the name asked for. "
  "A bridge starts and ends at the given values whatever the random numbers. An interpolated path contains every original point at its time. "
  "Reading a price file returns the column and window asked for, inverted if asked for; what is saved is what is loaded.",
  ["inputs"], "all random numbers, parameters and end points (fixed numbers of steps); interpolation, files and distributions are sampled",
  "tests look at one random path each",
  ["carbon/helpers/pathgenerator.py", "carbon/helpers/pathinterpolation.py", "carbon/helpers/pdread.py", "carbon/helpers/fls.py"],
  [("PathGenerator.path", "carbon/helpers/pathgenerator.py"), ("gaussian_bridge, interpolate", "carbon/helpers/pathinterpolation.py"), ("pdread", "carbon/helpers/pdread.py")],
  note=PROOF + " Time stamps, files and statistics are outside the proofs: those contracts run on sampled inputs.")
OPT = "carbon/tools/optimizer.py"
P("N01", "Goal seek, Jacobian, constraints and trade instructions mean what they say",
  "The goal seek returns a point within the interval at which the function is zero or changes sign within the precision, and refuses intervals without a change of sign. "
  "Derivatives and Jacobians are exact for parabolas and affine maps, Newton steps hit the extremum of a parabola, and a search that fails is an error, not a number. "
  "Self-financing constraints optimise exactly one token and constrain every other token of the problem, to zero unless told otherwise. "
  "In trade instructions what the AMM receives is positive and what it pays is negative, whatever the order given.",
  ["inputs"], "all functions (uninterpreted), intervals, coefficients, constraints and amounts",
  "tests evaluate a handful of functions at round numbers",
  [OPT], [("goalseek, deriv, findminmax_nr", OPT), ("jacobian, posx, negx", OPT), ("SelfFinancingConstraints", OPT), ("TradeInstruction", OPT)])
P("N02", "Optimisers report trades of the curves at the prices they report",
  "The aggregate trades at any price or price vector are the sums, per token, of the trades of every curve to the cross price of its pair, in either direction of the pair. "
  "The result of an optimisation, whatever the solver did, is consistent: net flows, per-curve amounts and trade instructions are those of the curves at the reported prices, and the result is the net flow of the target token. "
  "With a target token every other token nets to zero at the price found. Every feasible point of the convex problem respects the invariant and the liquidity of every curve and nets every token but the target to the amount asked for (zero by default). "
  "Failures are reported as errors. Price estimates average the curves of a pair in both directions.",
  ["inputs"], "all prices and curve sizes, every answer of the numerical solvers; one to four curves on up to three tokens",
  "tests run a few fixed markets and compare numbers; inconsistent reports for other markets go unnoticed",
  [OPT, "carbon/tools/cpc.py"], [("simple_optimizer, SimpleOptimizerResult", OPT), ("margp_optimizer, dtknfromp_f, MargpOptimizerResult", OPT), ("nofees_optimizer, NofeesOptimizerResult", OPT), ("price_estimate", "carbon/tools/cpc.py")],
  note=PROOF + " Market shapes are enumerated (one to four curves on up to three tokens). Assumed contracts: the trade of a curve to a price (proved in K01), numpy vectors, "
  "linear solvers and Newton's method return arbitrary numbers, cvxpy returns a point satisfying its constraints. Convergence itself is only sampled.")
