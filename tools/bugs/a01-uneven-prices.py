PROP = "A01"
FILE = "carbon/simulators/sim_analytics.py"
EDITS = [("            sum(r.liquidity_approx(p1, p2, tkn)/(p2-p1) for r in  curves_bid) ", "            sum(r.liquidity_approx(p1, p2, tkn)/(prices[1]-prices[0]) for r in  curves_bid) ")]
NEEDS = "a price grid whose intervals are not all of the same length"
BREAKS = "the approximate liquidity of the bid side is scaled by the wrong interval"
DEMO = '''
from carbon import CarbonSimulatorUI
from carbon.pair import CarbonPair
from carbon.simulators.sim_analytics import OrderBook
p = CarbonPair("ETH/USDC")
S = CarbonSimulatorUI(pair=p)
S.add_strategy("ETH", 10, 2000, 3000, 10000, 1500, 1000)
o = S.state()["orderuis"]
f = lambda g: OrderBook.calc_liquidity_approx(o, g, p, purgezero=False)["bid"]
a, b = f([1100, 1200]), f([1000, 1100, 1200])
c = f([800, 1100, 1200])
assert abs(a[0]-b[1]) < 1e-9 and abs(a[0]-c[1]) < 1e-9, (a, b, c)
'''
