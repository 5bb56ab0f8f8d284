PROP = "S02"
FILE = "carbon/simulators/carbon_simulator.py"
EDITS = [("            if y_int < amt:\n", "            if float(y_int) < round(float(amt), 2):\n")]
NEEDS = "a capacity below the liquidity by less than half a cent"
BREAKS = "a strategy whose capacity cannot hold its liquidity is accepted"
DEMO = '''
from carbon import CarbonSimulatorUI
sim = CarbonSimulatorUI(pair="ETH/USDC")
r = sim.add_strategy("ETH", 0.004, 2000, 3000, 100, 1500, 1000, y_int_sell=0.001)
assert not r["success"] and not sim.orders, "capacity 0.001 accepted for a liquidity of 0.004"
assert sim.add_strategy("ETH", 0.004, 2000, 3000, 100, 1500, 1000, y_int_sell=0.005)["success"]
'''
