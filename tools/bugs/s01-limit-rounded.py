PROP = "S01"
FILE = "carbon/simulators/carbon_simulator.py"
EDITS = [("tkn, limit_price, carbon_pair.BUY, round(float(price_avg), decimals)", "tkn, limit_price, carbon_pair.BUY, round(float(price_avg), 6)")]
NEEDS = "a limit that differs from the average price by less than the seventh decimal (pairs with small prices)"
BREAKS = "a trade at a price worse than its limit is executed"
DEMO = '''
import io, contextlib
from carbon import CarbonSimulatorUI
# 1e-8 BTC per token
for tkn, lim in (("SHIB", 0.9999e-8), ("SHIB", 1.0001e-8)):
    sim = CarbonSimulatorUI(pair="SHIB/BTC", matching_method="exact")
    sim.add_order("SHIB", 1e6, 1e-8, 1.00000001e-8)
    y0 = sim.orders[0].y
    with contextlib.redirect_stdout(io.StringIO()):
        r = sim.amm_sells("SHIB", 1000, limit_price=lim)
    assert r["success"]
    assert (sim.orders[0].y == y0) == (lim < 1e-8), (lim, sim.orders[0].y)
'''
