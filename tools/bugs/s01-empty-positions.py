PROP = "S01"
FILE = "carbon/simulators/carbon_simulator.py"
EDITS = [("            use_positions = use_positions if use_positions is not None else order_ids\n", "            use_positions = use_positions or order_ids\n")]
NEEDS = "a trade restricted to an empty list of positions"
BREAKS = "a trade that names no position at all trades against every order"
DEMO = '''
from carbon import CarbonSimulatorUI
for mm in ("exact", "fast", "alpha"):
    sim = CarbonSimulatorUI(pair="ETH/USDC", matching_method=mm)
    sim.add_order("ETH", 10, 2000, 3000)
    y0 = sim.orders[0].y
    r = sim.amm_sells("ETH", 1, use_positions=[])
    assert sim.orders[0].y == y0, "traded against a position that was not named"
    assert not r["success"]
'''
