PROP = "S02"
FILE = "carbon/simulators/carbon_simulator.py"
EDITS = [("                    orderuis[o.id].set_linked(orderuis[o.linked_to_id])\n", "                    orderuis[o.id].set_linked(orderuis[o.id ^ 1 if o.id ^ 1 in orderuis else o.linked_to_id])\n")]
NEEDS = "orders whose links are not pairs of an even id and the next odd one (a single order linked to itself next to other orders)"
BREAKS = "the state reports a curve as linked to a curve of another position"
DEMO = '''
from carbon import CarbonSimulatorUI
sim = CarbonSimulatorUI(pair="ETH/USDC")
sim.exclude_future = False
sim.add_strategy("ETH", 10, 2000, 3000, 1000, 1500, 1000)
for k in range(2):
    r = sim._add_replace_single_order("ETH", 5, 2000, 3000)
    assert r["success"], r
ui = sim.state()["orderuis"]
for o in sim.orders.values():
    assert ui[o.id].linked is ui[o.linked_to_id], o.id
'''
