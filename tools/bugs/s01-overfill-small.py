PROP = "S01"
FILE = "carbon/simulators/carbon_simulator.py"
EDITS = [("                                > self.orders[self.orders[indx].linked_to_id].y_int\n                        ):\n", "                                > self.orders[self.orders[indx].linked_to_id].y_int + self.orders[self.orders[indx].linked_to_id].y / 1000\n                        ):\n")]
NEEDS = "a trade that overfills the linked order by less than one part in a thousand"
BREAKS = "the liquidity of an order exceeds its capacity"
DEMO = '''
from carbon import CarbonSimulatorUI
sim = CarbonSimulatorUI(pair="ETH/USDC", matching_method="exact")
sim.add_strategy("ETH", 1000, 2000, 3000, 1000, 1500, 1000)
r = sim.amm_buys("ETH", 0.5)
assert r["success"]
assert sim.orders[0].y_int >= sim.orders[0].y > 1000, (sim.orders[0].y, sim.orders[0].y_int)
'''
